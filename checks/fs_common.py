"""A directory of files with symbolic names and contents.

In replays the files really exist.  Symbolic names cannot, so there the calls
that list and open them are replaced, for this directory only."""

import builtins
import io
import os
import shutil
import tempfile

from sx.files import ByteFile


class Directory:

    def __init__(self, ctx):
        self.ctx = ctx
        self.files = []             # (name, contents)

    def add(self, name, contents):
        self.files.append((name, contents))

    def path(self, name):
        return self.root + u'/' + name

    def __enter__(self):
        self.root = tempfile.mkdtemp(prefix='sx')
        self.saved = os.listdir, io.open, builtins.open
        if self.ctx.symbolic:
            os.listdir = self._listdir
            io.open = builtins.open = self._open
        else:
            for name, contents in self.files:
                with open(self.path(name), 'wb') as f:
                    f.write(contents)
        return self

    def __exit__(self, *exc):
        os.listdir, io.open, builtins.open = self.saved
        shutil.rmtree(self.root)
        return False

    def _listdir(self, path=u'.'):
        if path == self.root:
            return [name for name, _ in self.files]
        return self.saved[0](path)

    def _open(self, path, mode='r', *args, **kwargs):
        if isinstance(path, str) and path.startswith(self.root + u'/'):
            name = path[len(self.root) + 1:]
            for known, contents in self.files:
                if name == known:
                    return ByteFile(contents, path)
            raise FileNotFoundError(2, 'No such file or directory')
        return self.saved[1](path, mode, *args, **kwargs)
