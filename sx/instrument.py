"""Loads Python packages from source with every operation that could bypass
the symbolic proxies rewritten into a call of sx.hooks."""

import ast
import builtins
import functools
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

from sx import hooks

builtins._sx_call_ = hooks.call
builtins._sx_in_ = hooks.contains
builtins._sx_get_ = hooks.getitem
builtins._sx_set_ = hooks.setitem
builtins._sx_del_ = hooks.delitem
builtins._sx_aug_ = hooks.augitem
builtins._sx_bin_ = hooks.binop
builtins._sx_dict_ = hooks.mkdict
builtins._sx_mkset_ = hooks.mkset
builtins._sx_fstr_ = hooks.fstring
builtins._sx_is_ = hooks.cmp_is

NOCALL = {'super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec',
          '__import__', 'isinstance', 'len', 'getattr', 'hasattr', 'iter',
          'next', 'enumerate', 'zip', 'issubclass', 'list', 'tuple', 'id',
          'setattr', 'namedtuple', 'property', 'object'}

# standard library modules that instrumented code gets an instrumented copy of
REDIRECT = {'datetime': ('sxlib_datetime', '_pydatetime')}
ALIASED = {'urllib.parse': 'sxlib_urlparse', 'posixpath': 'sxlib_posixpath'}

functions = {}      # (module, qualname) -> (file, line) of instrumented code


def _name(n):
    return ast.Name(n, ast.Load())


class T(ast.NodeTransformer):

    def __init__(self, strip_caches=False):
        self.strip_caches = strip_caches

    def _call(self, fn, *args):
        return ast.Call(_name(fn), list(args), [])

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in NOCALL:
            return node
        return ast.copy_location(ast.Call(
            _name('_sx_call_'), [f] + node.args, node.keywords), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            if isinstance(op, (ast.In, ast.NotIn)):
                return ast.copy_location(self._call(
                    '_sx_in_', node.left, node.comparators[0],
                    ast.Constant(isinstance(op, ast.NotIn))), node)
            if isinstance(op, ast.Is) and \
                    isinstance(node.comparators[0], ast.Constant) and \
                    node.comparators[0].value in (True, False):
                return ast.copy_location(self._call(
                    '_sx_is_', node.left, node.comparators[0]), node)
            return node
        if any(isinstance(op, (ast.In, ast.NotIn)) for op in node.ops):
            # a in b == c ...: leave alone (not used in practice)
            return node
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        n = type(node.op).__name__
        if n in ('Mod', 'Sub', 'BitAnd', 'BitOr', 'BitXor'):
            return ast.copy_location(self._call(
                '_sx_bin_', ast.Constant(n), node.left, node.right), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and \
                not isinstance(node.slice, ast.Slice) and \
                not isinstance(node.slice, ast.Constant):
            return ast.copy_location(self._call(
                '_sx_get_', node.value, node.slice), node)
        if isinstance(node.ctx, ast.Load) and \
                isinstance(node.slice, ast.Constant):
            return ast.copy_location(self._call(
                '_sx_get_', node.value, node.slice), node)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and \
                isinstance(node.targets[0], ast.Subscript) and \
                not isinstance(node.targets[0].slice, ast.Slice):
            t = node.targets[0]
            return ast.copy_location(ast.Expr(self._call(
                '_sx_set_', t.value, t.slice, node.value)), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        n = type(node.op).__name__
        if isinstance(node.target, ast.Subscript) and \
                not isinstance(node.target.slice, ast.Slice):
            t = node.target
            return ast.copy_location(ast.Expr(self._call(
                '_sx_aug_', t.value, t.slice, ast.Constant(n), node.value)),
                node)
        if n in ('Sub', 'BitAnd', 'BitOr', 'Mod') and \
                isinstance(node.target, ast.Name):
            return ast.copy_location(ast.Assign(
                [ast.Name(node.target.id, ast.Store())],
                self._call('_sx_bin_', ast.Constant(n),
                           _name(node.target.id), node.value)), node)
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and \
                isinstance(node.targets[0], ast.Subscript) and \
                not isinstance(node.targets[0].slice, ast.Slice):
            t = node.targets[0]
            return ast.copy_location(ast.Expr(self._call(
                '_sx_del_', t.value, t.slice)), node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        if any(k is None for k in node.keys):
            return node
        return ast.copy_location(self._call('_sx_dict_', ast.List(
            [ast.Tuple([k, v], ast.Load())
             for k, v in zip(node.keys, node.values)], ast.Load())), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(self._call('_sx_dict_', ast.ListComp(
            ast.Tuple([node.key, node.value], ast.Load()),
            node.generators)), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(self._call('_sx_mkset_', ast.ListComp(
            node.elt, node.generators)), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        if all(isinstance(e, ast.Constant) for e in node.elts):
            return node
        return ast.copy_location(self._call(
            '_sx_mkset_', ast.List(node.elts, ast.Load())), node)

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                conv = {-1: None, 115: 's', 114: 'r', 97: 'a'}[v.conversion]
                spec = v.format_spec or ast.Constant('')
                parts.append(ast.Tuple([v.value, ast.Constant(conv), spec],
                                       ast.Load()))
            else:
                parts.append(v)
        return ast.copy_location(ast.Call(_name('_sx_fstr_'), parts, []),
                                 node)


    def visit_ImportFrom(self, node):
        if node.module in REDIRECT and not node.level:
            node.module = REDIRECT[node.module][0]
        return node

    def visit_Import(self, node):
        for a in node.names:
            if a.name in REDIRECT:
                a.asname = a.asname or a.name
                a.name = REDIRECT[a.name][0]
        return node

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        if self.strip_caches:
            node.decorator_list = [
                d for d in node.decorator_list
                if 'cache' not in ast.dump(d)]
        return node

    def visit_MatchValue(self, node):
        return node

    def visit_MatchMapping(self, node):
        return node

    def visit_MatchClass(self, node):
        return node


def _decorators_untouched(tree):
    return tree


def transform(source, filename, modname, stdlib=False):
    tree = ast.parse(source, filename)
    for node in ast.walk(tree) if not stdlib else ():
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            functions[(modname, node.name, node.lineno)] = filename
    tree = T(stdlib).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')


class Loader(importlib.machinery.SourceFileLoader):

    def get_code(self, fullname):
        return transform(self.get_data(self.path), self.path, fullname)


class Finder(importlib.abc.MetaPathFinder):

    def __init__(self, roots):
        self.roots = roots      # package name -> directory holding it

    def find_spec(self, name, path=None, target=None):
        top = name.split('.')[0]
        root = self.roots.get(top)
        if root is None:
            return None
        base = os.path.join(root, *name.split('.'))
        for p, pkg in ((os.path.join(base, '__init__.py'), True),
                       (base + '.py', False)):
            if os.path.isfile(p):
                return importlib.util.spec_from_file_location(
                    name, p, loader=Loader(name, p),
                    submodule_search_locations=[base] if pkg else None)
        return None


def load_stdlib(alias, original):
    """An instrumented copy of a pure Python standard library module."""
    path = importlib.util.find_spec(original).origin
    if path == 'frozen':
        path = sys.modules[original].__file__
    with open(path, encoding='utf-8') as f:
        code = transform(f.read(), path, alias, stdlib=True)
    mod = types.ModuleType(alias)
    mod.__file__ = path
    sys.modules[alias] = mod
    exec(code, mod.__dict__)
    return mod


HEX_DIGITS = frozenset(b'0123456789abcdefABCDEF')


def alias_json():
    """json.loads of symbolic text: json's own pure Python implementation"""
    import json
    import re
    scanner = load_stdlib('sxlib_json_scanner', 'json.scanner')
    decoder = load_stdlib('sxlib_json_decoder', 'json.decoder')
    scanner.make_scanner = scanner.py_make_scanner
    # like the C implementation, which is what otherwise runs
    scanner.NUMBER_RE = re.compile(scanner.NUMBER_RE.pattern.replace(
        r'\d', '[0-9]'), scanner.NUMBER_RE.flags)
    decoder.scanner = scanner
    decoder.scanstring = decoder.py_scanstring
    decoder.JSONDecodeError = json.JSONDecodeError
    uxxxx = decoder._decode_uXXXX

    def decode_uxxxx(s, pos, *args):
        for c in s[pos + 1:pos + 5]:
            if hooks.contains(hooks.call(ord, c), HEX_DIGITS, True):
                raise json.JSONDecodeError('Invalid \\uXXXX escape', s, pos)
        return uxxxx(s, pos, *args)

    decoder._decode_uXXXX = decode_uxxxx

    def loads(s, **kwargs):
        cls = kwargs.pop('cls', None)
        if cls is not None or not isinstance(s, (str, bytes)):
            return json.loads(s.pin('json') if hooks.is_sym(s) else s,
                              cls=cls, **kwargs)
        if isinstance(s, bytes):
            s = s.decode(json.detect_encoding(s), 'surrogatepass')
        elif s.startswith('\ufeff'):
            raise json.JSONDecodeError('Unexpected UTF-8 BOM', s, 0)
        return decoder.JSONDecoder(**kwargs).decode(s)

    hooks.alias(json.loads, loads)

    encoder = load_stdlib('sxlib_json_encoder', 'json.encoder')
    encoder.c_make_encoder = None
    encoder.encode_basestring = encoder.py_encode_basestring
    encoder.encode_basestring_ascii = encoder.py_encode_basestring_ascii

    def symbolic(x):
        if isinstance(x, dict):
            return any(symbolic(y) for kv in x.items() for y in kv)
        if isinstance(x, (list, tuple)):
            return any(symbolic(y) for y in x)
        return hooks.is_sym(x)

    def dumps(obj, *, ensure_ascii=True, indent=None, **kwargs):
        if kwargs or not symbolic(obj):
            return json.dumps(obj, ensure_ascii=ensure_ascii, indent=indent,
                              **kwargs)
        return encoder.JSONEncoder(ensure_ascii=ensure_ascii,
                                   indent=indent).encode(obj)

    hooks.alias(json.dumps, dumps)


def install(roots):
    for alias, original in REDIRECT.values():
        load_stdlib(alias, original)
    dt = sys.modules['sxlib_datetime']
    hooks.model_timestamps(dt)
    dt._wrap_strftime = functools.partial(hooks.strftime, dt._wrap_strftime)
    for original, alias in ALIASED.items():
        copy = load_stdlib(alias, original)
        orig = importlib.import_module(original)
        for name, f in vars(orig).items():
            g = getattr(copy, name, None)
            if callable(f) and isinstance(g, types.FunctionType) and \
                    getattr(f, '__module__', None) == original:
                hooks.alias(f, g)
    alias_json()
    sys.meta_path.insert(0, Finder(roots))
