"""Program representation: modules, classes (C3 linearisation), callables, heap cells."""
from __future__ import annotations

import ast
import os

from .terms import V

REPO = os.environ.get('HGQSA_REPO', '/repo')
PKG = 'HGQ'
SRC = os.path.join(REPO, 'src', PKG)
STUBS = os.path.join(os.path.dirname(__file__), 'stubs')


class Undecided(Exception):
    """The analysed code uses a construct outside of the analysed subset."""


class AnchorGone(Exception):
    """A public entry point the analysis is anchored at does not exist any more."""


# ------------------------------------------------------------------ callables / classes as values
class Func(V):
    __slots__ = ('node', 'mod', 'closure', 'defaults', 'kwdefaults', 'qual', 'cls', 'wrap', 'file')

    def __init__(self, node, mod, closure, defaults, kwdefaults, qual, cls=None, wrap=(), file=None):
        self.node, self.mod, self.closure = node, mod, closure
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.qual, self.cls, self.wrap, self.file = qual, cls, wrap, file
        self.key = f'fn:{qual}' + (f'@{closure.id}' if closure is not None else '')

    def with_(self, **kw):
        d = dict(node=self.node, mod=self.mod, closure=self.closure, defaults=self.defaults,
                 kwdefaults=self.kwdefaults, qual=self.qual, cls=self.cls, wrap=self.wrap, file=self.file)
        d.update(kw)
        return Func(**d)


class Cls(V):
    __slots__ = ('info',)

    def __init__(self, info):
        self.info = info
        self.key = f'cls:{info.qual}'


class ClsInfo:
    def __init__(self, name, qual, mod, bases, attrs, node=None, stub=False, file=None):
        self.name, self.qual, self.mod, self.bases, self.attrs = name, qual, mod, bases, attrs
        self.node, self.stub, self.file = node, stub, file
        self.mro = c3(self)
        self.registered = []
        self.virtual_bases = []

    def find(self, name, after=None):
        """(owner, value) of a class attribute along the MRO (strictly after `after`)"""
        mro = self.mro
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if name in c.attrs:
                return c, c.attrs[name]
        return None, None

    def issub(self, other):
        return other in self.mro or other in self.virtual_bases

    def __repr__(self):
        return self.qual


def c3(c):
    def merge(seqs):
        out = []
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                raise Undecided(f'inconsistent MRO for {c.name}')
            out.append(h)
            seqs = [[x for x in t if x is not h] for t in seqs]
            seqs = [t for t in seqs if t]
        return out
    return [c] + merge([b.mro for b in c.bases] + [list(c.bases)])


class Ext(V):
    """external (library) function / class / module, canonical dotted path"""
    __slots__ = ('path',)

    def __init__(self, path):
        self.path = path
        self.key = f'ext:{path}'


class Mod(V):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name
        self.key = f'mod:{name}'


class Bound(V):
    __slots__ = ('fn', 'self')

    def __init__(self, fn, self_):
        self.fn, self.self = fn, self_
        self.key = f'bound({fn.key}, {self_.key})'


class BoundSym(V):
    """attribute access on a non-object value used as a method"""
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj, self.name = obj, name
        self.key = f'{obj.key}.{name}()'


class Partial(V):
    __slots__ = ('fn', 'args', 'kw')

    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, tuple(args), tuple(sorted(kw.items()))
        self.key = f'partial({fn.key}; {", ".join(a.key for a in self.args)}; ' + ', '.join(f'{k}={v.key}' for k, v in self.kw) + ')'


class SuperV(V):
    __slots__ = ('cls', 'self')

    def __init__(self, cls, self_):
        self.cls, self.self = cls, self_
        self.key = f'super({cls.qual}, {self_.key})'


class Prop(V):
    __slots__ = ('fget', 'fset', 'memo')

    def __init__(self, fget, fset=None, memo=False):
        self.fget, self.fset, self.memo = fget, fset, memo
        self.key = f'property({fget.key})'


class StaticM(V):
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn
        self.key = f'static({fn.key})'


class ClassM(V):
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn
        self.key = f'classm({fn.key})'


class PyFn(V):
    """analyser-provided callable (library model, spec hook)"""
    __slots__ = ('fn', 'name')

    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.key = f'py:{name}'


# ------------------------------------------------------------------ heap cells
class Cell:
    pass


class ObjCell(Cell):
    __slots__ = ('cls', 'attrs', 'name', 'force', 'open')

    def __init__(self, cls, attrs, name=None, force=None, open=False):
        self.cls, self.attrs, self.name, self.force, self.open = cls, attrs, name, force or {}, open

    def set(self, k, v):
        a = dict(self.attrs)
        a[k] = v
        f = self.force
        if k in f:
            f = {x: y for x, y in f.items() if x != k}
            f[k] = v
        return ObjCell(self.cls, a, self.name, f, self.open)


class FrameCell(Cell):
    __slots__ = ('vars', 'parent', 'mod', 'cls', 'globals', 'nonlocals')

    def __init__(self, vars, parent, mod, cls, globals=(), nonlocals=()):
        self.vars, self.parent, self.mod, self.cls = vars, parent, mod, cls
        self.globals, self.nonlocals = globals, nonlocals

    def set(self, k, v):
        a = dict(self.vars)
        a[k] = v
        return FrameCell(a, self.parent, self.mod, self.cls, self.globals, self.nonlocals)


class ListCell(Cell):
    __slots__ = ('items', 'kind')

    def __init__(self, items, kind='list'):
        self.items, self.kind = tuple(items), kind


class DictCell(Cell):
    """ordered dict; values may be gated with UNDEF when presence is conditional"""
    __slots__ = ('kv', 'sym')

    def __init__(self, kv, sym=None):
        self.kv, self.sym = tuple(kv), sym

    def set(self, k, v):
        kv = list(self.kv)
        for i, (a, _) in enumerate(kv):
            if a == k:
                kv[i] = (k, v)
                return DictCell(kv, self.sym)
        kv.append((k, v))
        return DictCell(kv, self.sym)

    def rm(self, k):
        return DictCell([(a, b) for a, b in self.kv if a != k], self.sym)


class VarCell(Cell):
    """tf.Variable"""
    __slots__ = ('val', 'meta', 'name')

    def __init__(self, val, name=None, meta=None):
        self.val, self.name, self.meta = val, name, meta or {}


class DispCell(Cell):
    """functools.singledispatch(method) object"""
    __slots__ = ('default', 'reg', 'method', 'qual')

    def __init__(self, default, reg, method, qual):
        self.default, self.reg, self.method, self.qual = default, tuple(reg), method, qual


class Altern(Cell):
    """two incompatible cell contents joined by a gate"""
    __slots__ = ('cond', 'a', 'b')

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b


# ------------------------------------------------------------------ sources
class Source:
    def __init__(self, name, path, pkg):
        self.name, self.path, self.pkg = name, path, pkg
        with open(path, encoding='utf-8') as f:
            self.text = f.read()
        self.tree = ast.parse(self.text, path)


def load_sources():
    out = {}
    if not os.path.isdir(SRC):
        raise AnchorGone(f'{SRC} does not exist')
    for root, dirs, files in os.walk(SRC):
        dirs[:] = sorted(d for d in dirs if d != '__pycache__')
        for f in sorted(files):
            if not f.endswith('.py') or f == '_version.py':
                continue
            p = os.path.join(root, f)
            rel = os.path.relpath(p, os.path.dirname(SRC))[:-3].replace(os.sep, '.')
            pkg = rel.endswith('.__init__') or rel == '__init__'
            if pkg:
                rel = rel[:-len('.__init__')]
            try:
                out[rel] = Source(rel, p, pkg)
            except SyntaxError as e:
                raise Undecided(f'{p}: {e}')
    return out


# ------------------------------------------------------------------ canonical external names
_PREFIX = [
    ('tensorflow.keras', 'keras'), ('tensorflow.python.keras', 'keras'), ('tf_keras', 'keras'),
    ('keras.api._v2.keras', 'keras'), ('keras.src.saving', 'keras.saving'),
    ('keras.saving.object_registration', 'keras.saving'),
    ('keras.utils.register_keras_serializable', 'keras.saving.register_keras_serializable'),
    ('keras.src.backend', 'keras.backend'),
    ('keras.src.activations', 'keras.activations'),
    ('keras.src.initializers', 'keras.initializers'), ('keras.src.regularizers', 'keras.regularizers'),
    ('keras.src.constraints', 'keras.constraints'),
    ('keras.engine', 'keras.src.engine'),
    ('keras.src.engine.keras_tensor', 'keras.kt'), ('keras.src.engine.node', 'keras.node'),
    ('keras.models.Model', 'keras.Model'), ('keras.Input', 'keras.layers.Input'),
    ('keras.Sequential', 'keras.models.Sequential'),
    ('tensorflow.math', 'tensorflow'), ('tensorflow.python.ops.nn_ops', 'tensorflow.nn'),
    ('tensorflow.python.ops.math_ops', 'tensorflow'), ('tensorflow.python.ops.array_ops', 'tensorflow'),
    ('tensorflow.experimental.numpy', 'numpy'),
    ('tensorflow', 'tf'), ('numpy', 'np'), ('keras.backend', 'K'),
    ('tf.keras', 'keras'), ('tf.math', 'tf'), ('tf.experimental.numpy', 'np'), ('tf.python.ops.nn_ops', 'tf.nn'),
    ('tf.python.ops.math_ops', 'tf'), ('tf.python.ops.array_ops', 'tf'), ('tf.python.keras', 'keras'),
]


def canon(path: str) -> str:
    changed = True
    n = 0
    while changed and n < 20:
        changed = False
        n += 1
        for a, b in _PREFIX:
            if path == a or path.startswith(a + '.'):
                q = b + path[len(a):]
                if q != path:
                    path = q
                    changed = True
    return path
