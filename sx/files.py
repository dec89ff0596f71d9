"""A binary file object over possibly symbolic bytes (io.BufferedReader's
contract for tell/peek/read/readline)."""


class ByteFile:

    def __init__(self, data, name='data'):
        self.data = data
        self.pos = 0
        self.name = name

    def tell(self):
        return self.pos

    def peek(self, n=0):
        return self.data[self.pos:]

    def read(self, n=-1):
        size = len(self.data)
        if n is None or n < 0:
            end = size
        elif n >= size - self.pos:
            end = size
        else:
            end = self.pos
            # `n` may be symbolic: find its value below the remaining length
            for k in range(size - self.pos):
                if n == k:
                    end = self.pos + k
                    break
        r = self.data[self.pos:end]
        self.pos = end
        return r

    def readline(self, limit=-1):
        i = self.data.find(b'\n', self.pos)
        end = len(self.data) if i < 0 else i + 1
        if limit is not None and limit >= 0:
            end = min(end, self.pos + limit)
        r = self.data[self.pos:end]
        self.pos = end
        return r

    def __iter__(self):
        return self

    def __next__(self):
        r = self.readline()
        if not r:
            raise StopIteration
        return r

    def seek(self, pos, whence=0):
        self.pos = pos if whence == 0 else (
            self.pos + pos if whence == 1 else len(self.data) + pos)
        return self.pos

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False
