"""Models of the libraries the repository calls (python builtins, numpy, tensorflow, keras, functools...).

Every model either has a precise meaning in the term domain or is an
uninterpreted operator with a normalised argument list.  A call that has no
model yields an 'ext' term and is remembered as unmodelled: a comparison that
depends on it cannot produce a violation, only "undecided".
"""
from __future__ import annotations

import ast
from fractions import Fraction

from .program import (Altern, Bound, BoundSym, ClassM, Cls, DictCell, DispCell, Ext, Func, ListCell, Mod, ObjCell, Partial,
                      Prop, PyFn, StaticM, Undecided, VarCell)
from . import terms as T
from .terms import (Atom, C, DictV, FALSE, Ite, N, NONE, ONE, Ref, TRUE, Tup, UNDEF, V, ZERO, add, apply, cand, cnot, cond_atom,
                    cor, div, eq0, gt0, ind, integral, is_cond, ite, mul, nabs, neg, nfloor, nceil, nround, ntrunc, nmax,
                    nmin, nsign, nsqrt, npow, num, of_atom, pow2, relu, sub, nfloordiv, nfloormod)


class Arr(V):
    """numpy array of statically known (small) length"""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)
        self.key = 'arr(' + ', '.join(i.key for i in self.items) + ')'


BUILTIN_NAMES = '''len range list tuple dict set frozenset isinstance issubclass hasattr getattr setattr delattr int float bool str
min max sum abs any all zip enumerate map filter sorted reversed round print type callable property staticmethod classmethod object
iter next id repr pow divmod super slice NotImplemented NotImplementedError ValueError TypeError RuntimeError KeyError IndexError AttributeError
AssertionError Exception ImportError ModuleNotFoundError StopIteration Warning UserWarning DeprecationWarning OSError ArithmeticError
ZeroDivisionError OverflowError BaseException LookupError bytes complex vars dir globals locals open format hash chr ord input'''.split()
BUILTINS = {n: Ext('builtins.' + n) for n in BUILTIN_NAMES}
BUILTINS['NotImplemented'] = C('NotImplemented')

_CONSTS = {'np.inf': num(float('inf')), 'np.Inf': num(float('inf')), 'math.inf': num(float('inf')), 'np.nan': num(float('nan')),
           'np.newaxis': NONE, 'tf.newaxis': NONE, 'math.pi': of_atom(Atom('pi')), 'np.pi': of_atom(Atom('pi')),
           'np.NINF': neg(num(float('inf'))), 'sys.version_info': Tup((num(3), num(12), num(3)))}


def consts(p):
    return _CONSTS.get(p)


def nullable(a: Atom):
    return a.op in ('match',) or (a.op == 'sym' and str(a.args[0]).endswith('?')) or (a.op == 'call' and str(a.args[0]).endswith('?'))


def to_n(x):
    if isinstance(x, N):
        return x
    if isinstance(x, C):
        if isinstance(x.v, bool):
            return num(int(x.v))
        raise Undecided(f'number expected, got {x.key[:60]}')
    if isinstance(x, Ite) and is_cond(x):
        return ind(x)
    raise Undecided(f'number expected, got {type(x).__name__} {x.key[:60]}')


def prep(v):
    if isinstance(v, Ite) and is_cond(v):
        return ind(v)
    return v


class ShapeMismatch(Exception):
    """numpy/tensorflow would refuse to broadcast"""


def lift(f, *vs):
    """apply f below the gates of its arguments; element-wise over known-length arrays"""
    vs = [prep(v) for v in vs]

    def g(*xs):
        ns = [len(x.items) for x in xs if isinstance(x, Arr)]
        if ns:
            n = max(ns)
            if any(k not in (1, n) for k in ns):
                raise ShapeMismatch(f'operands of lengths {ns}')
            out = []
            for i in range(n):
                out.append(lift(f, *[x.items[i if len(x.items) > 1 else 0] if isinstance(x, Arr) else x for x in xs]))
            return Arr(out)
        return f(*xs)
    return apply(g, *vs)


def num1(fn):
    return lambda *vs: lift(lambda *xs: fn(*[to_n(x) for x in xs]), *vs)


# ------------------------------------------------------------------ operators
def _pow(a, b):
    if a.const == 2:
        return pow2(b)
    if b.const is not None and b.const.denominator == 1 and abs(b.const) <= 8:
        return npow(a, int(b.const))
    if b.const == Fraction(1, 2):
        return nsqrt(a)
    if b.const == Fraction(-1, 2):
        return T.inv(nsqrt(a))
    if a.const is not None and a.const > 0:
        # power-of-two bases
        c, n = a.const, 0
        while c.denominator == 1 and c.numerator % 2 == 0:
            c /= 2
            n += 1
        while c.denominator % 2 == 0:
            c *= 2
            n -= 1
        if c == 1:
            return pow2(T.scale(b, n))
    return of_atom(Atom('pow', (a, b)))


def _div(a, b):
    if b.const == 0:
        return mul(of_atom(Atom('inf')), a) if a.const is None else (num(float('nan')) if a.const == 0 else T.scale(of_atom(Atom('inf')), 1 if a.const > 0 else -1))
    return div(a, b)


def _matmul(a, b, ta=False, tb=False):
    if a.const == 0 or b.const == 0:
        return ZERO
    ca, cb = T.lead(a), T.lead(b)
    a, b = T.scale(a, 1 / ca), T.scale(b, 1 / cb)
    return T.scale(of_atom(Atom('matmul', (a, b, ta, tb), integral=integral(a) and integral(b))), ca * cb)


NUMOPS = {ast.Add: lambda a, b: add(a, b), ast.Sub: sub, ast.Mult: mul, ast.Div: _div, ast.FloorDiv: nfloordiv, ast.Mod: nfloormod,
          ast.Pow: _pow, ast.MatMult: _matmul, ast.LShift: lambda a, b: mul(a, pow2(b)), ast.RShift: lambda a, b: nfloor(div(a, pow2(b)))}


def seq_items(it, st, x):
    if isinstance(x, Tup):
        return x.items
    if isinstance(x, Ref) and isinstance(st.heap[x.id], ListCell):
        return st.heap[x.id].items
    return None


def binop(it, st, op, a, b):
    t = type(op)
    if t in (ast.BitAnd, ast.BitOr, ast.BitXor):
        return bitop(it, st, t, a, b)

    def f(x, y):
        sx, sy = seq_items(it, st, x), seq_items(it, st, y)
        if t is ast.Add and sx is not None and sy is not None:
            r = list(sx) + list(sy)
            return it.new_list(st, r) if isinstance(x, Ref) else Tup(r)
        if t is ast.Add and sx is not None and isinstance(y, N) and y.atom is not None and y.atom.op in ('shape', 'idx', 'attr', 'sym'):
            return of_atom(Atom('seqcat', (it.freeze(x, st), y)))
        if t is ast.Add and sy is not None and isinstance(x, N) and x.atom is not None and x.atom.op in ('shape', 'idx', 'attr', 'sym'):
            return of_atom(Atom('seqcat', (x, it.freeze(y, st))))
        if t is ast.Mult and sx is not None and isinstance(y, N) and y.const is not None:
            r = list(sx) * int(y.const)
            return it.new_list(st, r) if isinstance(x, Ref) else Tup(r)
        if t is ast.Mult and sy is not None and isinstance(x, N) and x.const is not None:
            r = list(sy) * int(x.const)
            return it.new_list(st, r) if isinstance(y, Ref) else Tup(r)
        if t is ast.Mult and sx is not None and isinstance(y, C) and isinstance(y.v, bool):
            return Tup(list(sx) * int(y.v))
        # ndarray-like op on a tuple with an array operand
        if (isinstance(x, Tup) or isinstance(y, Tup)) and (isinstance(x, Arr) or isinstance(y, Arr)):
            x = Arr(x.items) if isinstance(x, Tup) else x
            y = Arr(y.items) if isinstance(y, Tup) else y
            return lift(f, x, y)
        if t is ast.Mod and isinstance(x, C) and isinstance(x.v, str):
            return of_atom(Atom('fstr', (x, it.freeze(y, st))))
        if t is ast.Add and (isstr(x) or isstr(y)):
            return concat_str(it, st, [x, y])
        if t is ast.Mult and isinstance(x, C) and isinstance(x.v, str) and isinstance(y, N) and y.const is not None:
            return C(x.v * int(y.const))
        if isinstance(x, Ref) or isinstance(y, Ref):
            name = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.Mod: 'mod', ast.Pow: 'pow', ast.FloorDiv: 'floordiv', ast.MatMult: 'matmul'}.get(t)
            if isinstance(x, Ref) and isinstance(st.heap[x.id], ObjCell):
                ow, m = st.heap[x.id].cls.find(f'__{name}__')
                if m is not None:
                    return it.call(Bound(m, x), [y], {}, st)
            if isinstance(x, Ref) and isinstance(st.heap[x.id], ListCell) and st.heap[x.id].kind == 'set' and t is ast.Sub:
                ys = it.iterate(y, st)
                return it.new_list(st, [z for z in st.heap[x.id].items if z not in ys], 'set')
            raise Undecided('operator on heap object')
        x, y = to_n(x), to_n(y)
        r = NUMOPS[t](x, y)
        if x.sh is not None or y.sh is not None:
            if isinstance(r, N) and (r.const is not None or r.key in ('inf', '-inf')):
                s = bcast([z.sh if z.sh is not None else Tup(()) for z in (x, y)])
                if s is not None:
                    r = with_shape(it, r, s)
        return r
    if t not in NUMOPS:
        raise Undecided(f'operator {t.__name__}')
    return lift(f, a, b)


def isstr(x):
    return (isinstance(x, C) and isinstance(x.v, str)) or (isinstance(x, N) and x.atom is not None and x.atom.op in ('fstr', 'str'))


def bitop(it, st, t, a, b):
    if isinstance(a, Arr) or isinstance(b, Arr):
        n = len(a.items) if isinstance(a, Arr) else len(b.items)
        if isinstance(a, Arr) and isinstance(b, Arr) and len(a.items) != len(b.items):
            n = max(len(a.items), len(b.items))
        g = lambda z, i: z.items[i if len(z.items) > 1 else 0] if isinstance(z, Arr) else z
        return Arr([bitop(it, st, t, g(a, i), g(b, i)) for i in range(n)])
    ca, cb = _as_cond(a), _as_cond(b)
    if ca is not None and cb is not None:
        if t is ast.BitAnd:
            return cand(ca, cb)
        if t is ast.BitOr:
            return cor(ca, cb)
        return cor(cand(ca, cnot(cb)), cand(cnot(ca), cb))

    def f(x, y):
        if isinstance(x, (Ref,)) and isinstance(st.heap[x.id], ListCell) and st.heap[x.id].kind == 'set':
            xs, ys = st.heap[x.id].items, it.iterate(y, st)
            if t is ast.BitOr:
                return it.new_list(st, list(xs) + [z for z in ys if z not in xs], 'set')
            if t is ast.BitAnd:
                return it.new_list(st, [z for z in xs if z in ys], 'set')
            return it.new_list(st, [z for z in xs if z not in ys] + [z for z in ys if z not in xs], 'set')
        if isinstance(x, Ref) and isinstance(st.heap[x.id], DictCell) and t is ast.BitOr:
            c = st.heap[x.id]
            for k, v in it.dict_items(y, st):
                c = c.set(k, v)
            return it.alloc(st, c)
        if isinstance(x, (Cls, Ext, Tup)) or isinstance(y, (Cls, Ext)):   # X | Y type unions
            xs = x.items if isinstance(x, Tup) else (x,)
            ys = y.items if isinstance(y, Tup) else (y,)
            return Tup(tuple(xs) + tuple(ys))
        if isinstance(x, C) and x.v is None or isinstance(y, C) and y.v is None:
            return Tup((x, y))
        x, y = to_n(x), to_n(y)
        if x.const is not None and y.const is not None:
            i, j = int(x.const), int(y.const)
            return num(i & j if t is ast.BitAnd else i | j if t is ast.BitOr else i ^ j)
        op = {ast.BitAnd: 'band', ast.BitOr: 'bor', ast.BitXor: 'bxor'}[t]
        return of_atom(Atom(op, sorted((x, y), key=lambda z: z.key)))
    return apply(f, a, b)


def _as_cond(v):
    if is_cond(v):
        return v
    if isinstance(v, N) and v.atom is not None and v.atom.op == 'ind':
        return cond_atom(v.atom.args[0])
    return None


# ------------------------------------------------------------------ comparison
def compare(it, st, op, a, b):
    t = type(op)
    if t in (ast.Is, ast.IsNot):
        r = apply(lambda x, y: identical(it, st, x, y), a, b)
        return cnot(r) if t is ast.IsNot else r
    if t in (ast.In, ast.NotIn):
        r = contains(it, st, a, b)
        return cnot(r) if t is ast.NotIn else r
    a, b = it.deref(a, st), it.deref(b, st)

    def f(x, y):
        if isinstance(x, Arr) or isinstance(y, Arr):
            n = max(len(z.items) for z in (x, y) if isinstance(z, Arr))
            g = lambda z, i: z.items[i if len(z.items) > 1 else 0] if isinstance(z, Arr) else z
            return Arr([compare(it, st, op, g(x, i), g(y, i)) for i in range(n)])
        if isinstance(x, Tup) and isinstance(y, Tup) and t not in (ast.Eq, ast.NotEq):
            # lexicographic
            strict = ast.Lt() if t in (ast.Lt, ast.LtE) else ast.Gt()
            r = C(t in (ast.LtE, ast.GtE)) if len(x.items) == len(y.items) else C((len(x.items) < len(y.items)) == (t in (ast.Lt, ast.LtE)))
            for p, q in reversed(list(zip(x.items, y.items))):
                r = cor(compare(it, st, strict, p, q), cand(equal(it, st, p, q), r))
            return r
        if t is ast.Eq:
            return equal(it, st, x, y)
        if t is ast.NotEq:
            return cnot(equal(it, st, x, y))
        if isstr(x) and isstr(y) and isinstance(x, C) and isinstance(y, C):
            return C({ast.Lt: x.v < y.v, ast.Gt: x.v > y.v, ast.LtE: x.v <= y.v, ast.GtE: x.v >= y.v}[t])
        for z in (x, y):
            if isinstance(z, N) and z.atom is not None and z.atom.op == 'nan':
                return FALSE
        x, y = to_n(x), to_n(y)
        if t is ast.Lt:
            return gt0(sub(y, x))
        if t is ast.Gt:
            return gt0(sub(x, y))
        if t is ast.LtE:
            return cnot(gt0(sub(x, y)))
        if t is ast.GtE:
            return cnot(gt0(sub(y, x)))
        raise Undecided('comparison')
    if is_cond(a) and is_cond(b) and t in (ast.Eq, ast.NotEq):
        r = cor(cand(a, b), cand(cnot(a), cnot(b)))
        return r if t is ast.Eq else cnot(r)
    if is_cond(a) and isinstance(a, Ite) or is_cond(b) and isinstance(b, Ite):
        a, b = prep(a), prep(b)
    return apply(f, a, b)


def eq_atom(x, y):
    if y.key < x.key:
        x, y = y, x
    # constants second
    if isinstance(x, (C, Ext)) and not isinstance(y, (C, Ext)):
        x, y = y, x
    return cond_atom(Atom('eq', (x, y)))


def may_be_nonnum(x: N):
    """could this symbolic value be a string / object?"""
    return x.atom is not None and x.atom.op in ('sym', 'attr', 'call', 'idx', 'item', 'ext', 'app', 'fstr', 'str', 'obj', 'new', 'undecided', 'group', 'strm', 'fmt')


def equal(it, st, x, y):
    if x == y:
        return TRUE
    if isinstance(x, N) and isinstance(y, N):
        ax, ay = x.atom, y.atom
        if ax is not None and ay is not None and ax.op == 'obj' and ay.op == 'obj':
            return FALSE
        return eq0(sub(x, y))
    if isinstance(x, C) and isinstance(y, C):
        return C(x.v == y.v)
    for p, q in ((x, y), (y, x)):
        if isinstance(p, N):
            if isinstance(q, C):
                if isinstance(q.v, bool):
                    return eq0(sub(p, num(int(q.v))))
                if q.v is None:
                    return isnone(p)
                if may_be_nonnum(p):
                    return eq_atom(p, q)
                return FALSE
            if isinstance(q, (Ext, Cls, Func, Bound)):
                if p.atom is not None and p.atom.op in ('sym', 'attr', 'call', 'idx', 'item', 'ext', 'app', 'undecided'):
                    return eq_atom(p, q)
                return FALSE
            if isinstance(q, Tup):
                if p.atom is not None and p.atom.op in ('sym', 'attr', 'call', 'shape', 'idx', 'seqcat', 'ext', 'undecided'):
                    return eq_atom(p, q)
                return FALSE
            if isinstance(q, Ref):
                fz = it.freeze(q, st)
                return equal(it, st, p, fz) if not isinstance(fz, Ref) else FALSE
            if isinstance(q, DictV):
                return eq_atom(p, q)
    sx, sy = seq_items(it, st, x), seq_items(it, st, y)
    if sx is not None and sy is not None:
        if len(sx) != len(sy):
            return FALSE
        setx = isinstance(x, Ref) and st.heap[x.id].kind == 'set'
        sety = isinstance(y, Ref) and st.heap[y.id].kind == 'set'
        if setx and sety:
            return C({i.key for i in sx} == {i.key for i in sy})
        r = TRUE
        for i, j in zip(sx, sy):
            r = cand(r, apply(lambda p, q: equal(it, st, p, q), it.deref(i, st), it.deref(j, st)))
        return r
    if isinstance(x, Ref) and isinstance(y, Ref):
        cx, cy = st.heap[x.id], st.heap[y.id]
        if isinstance(cx, DictCell) and isinstance(cy, DictCell):
            kx, ky = {k.key for k, _ in cx.kv}, {k.key for k, _ in cy.kv}
            if kx != ky:
                return FALSE
            r = TRUE
            dy = dict(cy.kv)
            for k, v in cx.kv:
                r = cand(r, apply(lambda p, q: equal(it, st, p, q), v, dy[k]))
            return r
        if isinstance(cx, ObjCell) and cx.cls is not None:
            ow, m = cx.cls.find('__eq__')
            if m is not None:
                return it.truth(it.call(Bound(m, x), [y], {}, st), st)
        return FALSE
    return FALSE


def isnone(p: N):
    if p.atom is not None and nullable(p.atom):
        return cond_atom(Atom('isnone', (p,)))
    return FALSE


def identical(it, st, x, y):
    if x == y:
        return TRUE
    if isinstance(x, Ref) and isinstance(y, Ref):
        return C(x.id == y.id)
    for p, q in ((x, y), (y, x)):
        if isinstance(p, N):
            if isinstance(q, C) and q.v is None:
                return isnone(p)
            if isinstance(q, C) and isinstance(q.v, bool):
                return eq_atom(p, q) if p.atom is not None and p.atom.op in ('sym', 'attr') else FALSE
            if isinstance(q, (Ext, Cls, Func, Bound)):
                if p.atom is not None and p.atom.op in ('sym', 'attr', 'call', 'idx', 'item', 'ext', 'app', 'undecided'):
                    return eq_atom(p, q)
                return FALSE
            if isinstance(q, N):
                ax, ay = p.atom, q.atom
                if ax is not None and ay is not None:
                    if ax.op in ('obj', 'new') and ay.op in ('obj', 'new'):
                        return FALSE
                    return eq_atom(p, q)
                return eq0(sub(p, q))
    if isinstance(x, C) and isinstance(y, C):
        return C(x.v is y.v or (x.v == y.v and type(x.v) is type(y.v)))
    return FALSE


# keras layer classes hls4ml has a converter for (hls4ml.converters.keras_v2_to_hls.layer_handlers)
HLS4ML_LAYERS = set('''Activation Add Average AveragePooling1D AveragePooling2D BatchNormalization Bidirectional BinaryDense Concatenate Conv1D
Conv2D Cropping1D Cropping2D Dense DepthwiseConv1D DepthwiseConv2D Dot ELU Embedding FixedPointQuantizer Flatten Functional GRU GarNet GarNetStack
GlobalAveragePooling1D GlobalAveragePooling2D GlobalMaxPooling1D GlobalMaxPooling2D InputLayer LSTM LayerNormalization LeakyReLU MaxPooling1D
MaxPooling2D Maximum Minimum Multiply PReLU Permute QActivation QBatchNormalization QConv1D QConv2D QConv2DBatchnorm QDense QDepthwiseConv2D QGRU
QLSTM QSeparableConv1D QSeparableConv2D QSimpleRNN ReLU Reshape SeparableConv1D SeparableConv2D Sequential SimpleRNN Softmax Subtract TernaryDense
ThresholdedReLU TimeDistributed UnaryLUT UpSampling1D UpSampling2D ZeroPadding1D ZeroPadding2D'''.split())


def contains(it, st, a, b):
    def f(x, y):
        if isinstance(y, C) and isinstance(y.v, str):
            if isinstance(x, C) and isinstance(x.v, str):
                return C(x.v in y.v)
            return cond_atom(Atom('in', (x, y)))
        if isinstance(y, N):
            if y.atom is not None and y.atom.op in ('fstr', 'str', 'strm'):
                if isinstance(x, C):
                    r = fstr_method(it, st, y, '__contains__', [x])
                    if r is not None:
                        return r
                return cond_atom(Atom('in', (x, y)))
            return cond_atom(Atom('in', (it.freeze(x, st), y)))
        if isinstance(y, Ext):
            if y.path.endswith('.layer_handlers') and isinstance(x, C) and isinstance(x.v, str):
                return C(x.v in HLS4ML_LAYERS)
            return cond_atom(Atom('in', (it.freeze(x, st), y)))
        if isinstance(y, Ref) and isinstance(st.heap[y.id], DictCell):
            c = st.heap[y.id]
            for k, v in c.kv:
                if k == it.hashable(x, st):
                    if v == UNDEF:
                        return FALSE
                    return apply(lambda z: C(z != UNDEF), v) if isinstance(v, Ite) and not is_cond(v) else TRUE
            if c.sym is not None:
                return cond_atom(Atom('in', (x, c.sym)))
            if isinstance(x, N) and x.const is None:
                r = FALSE
                for k, v in c.kv:
                    r = cor(r, equal(it, st, x, k))
                return r
            return FALSE
        if isinstance(y, Ref) and isinstance(st.heap[y.id], Altern):
            raise Undecided('membership in joined container')
        r = FALSE
        for z in it.iterate(y, st):
            r = cor(r, apply(lambda p, q: equal(it, st, p, q), it.deref(x, st), it.deref(z, st)))
        return r
    return apply(f, a, b)


# ------------------------------------------------------------------ strings
def concat_str(it, st, parts):
    parts = [it.deref(p, st) for p in parts]

    def f(*ps):
        out = []
        for p in ps:
            if isinstance(p, C):
                s = p.v if isinstance(p.v, str) else str(p.v)
            elif isinstance(p, N) and p.const is not None and p.const.denominator == 1:
                s = str(int(p.const))
            elif isinstance(p, N) and p.atom is not None and p.atom.op == 'fstr':
                for q in p.atom.args:
                    if out and isinstance(out[-1], C) and isinstance(q, C):
                        out[-1] = C(out[-1].v + q.v)
                    else:
                        out.append(q)
                continue
            else:
                out.append(it.freeze(p, st))
                continue
            if s == '':
                continue
            if out and isinstance(out[-1], C):
                out[-1] = C(out[-1].v + s)
            else:
                out.append(C(s))
        if not out:
            return C('')
        if len(out) == 1 and isinstance(out[0], C):
            return out[0]
        return of_atom(Atom('fstr', out))
    return apply(f, *parts)


# ------------------------------------------------------------------ indexing
def slice_const(a: Atom):
    p = []
    for x in a.args:
        if x == NONE:
            p.append(None)
        elif isinstance(x, N) and x.const is not None and x.const.denominator == 1:
            p.append(int(x.const))
        else:
            return None
    return slice(*p)


def index(it, st, o, k):
    k = it.freeze(k, st) if isinstance(k, Ref) else k
    if isinstance(k, Ite) and is_cond(k):
        return lift(lambda x: of_atom(Atom('select', (to_n(x), ind(k)))), o)

    def f(x, kk):
        if isinstance(x, Arr):
            if isinstance(kk, N) and kk.const is not None:
                return x.items[int(kk.const)]
            if isinstance(kk, N) and kk.atom is not None and kk.atom.op == 'slice' and slice_const(kk.atom) is not None:
                return Arr(x.items[slice_const(kk.atom)])
            if isinstance(kk, Arr) and len(kk.items) == len(x.items) and all(z in (TRUE, FALSE, ONE, ZERO) for z in kk.items):
                return Arr([a for a, z in zip(x.items, kk.items) if z in (TRUE, ONE)])
        if isinstance(x, N):
            if x.const is not None:
                return x
            if isinstance(kk, N) and kk.atom is not None and kk.atom.op == 'ind':
                return of_atom(Atom('select', (x, kk)))
            a = x.atom
            if a is not None and a.op == 'cmatch':
                return cmatch_method(it, st, a, '__getitem__', [kk])
            if a is not None and a.op == 'fstr' and pieces(x) is not None:
                return fstr_slice(it, st, x, kk)
            if isinstance(kk, N) and kk.atom is not None and kk.atom.op == 'slice' and all(z == NONE for z in kk.atom.args):
                return x
            if isinstance(kk, C) and kk.v is Ellipsis:
                return x
            if isinstance(kk, Tup) and all((isinstance(z, C) and z.v is Ellipsis) or (isinstance(z, N) and z.atom is not None and z.atom.op == 'slice' and all(q == NONE for q in z.atom.args)) for z in kk.items):
                return x
            r = newaxis_index(it, st, x, kk)
            if r is not None:
                return r
            kk2 = _norm_idx(kk)
            # distribute over elementwise structure only for single atoms
            return of_atom(Atom('idx', (x, kk2), integral=(a.integral if a is not None else integral(x))))
        if isinstance(x, DictV):
            r = x.get(kk)
            if r is not None:
                return r
        raise Undecided(f'index into {type(x).__name__} {x.key[:50]}')
    return apply(f, prep(o), k)


def fstr_slice(it, st, x, kk):
    """part of a formatted string that starts and ends within its first and last literal"""
    ps = pieces(x)
    first = len(ps[0]) if isinstance(ps[0], str) else 0
    last = len(ps[-1]) if isinstance(ps[-1], str) else 0
    if isinstance(kk, N) and kk.const is not None:
        i = int(kk.const)
        if 0 <= i < first:
            return C(ps[0][i])
        if i < 0 and -i <= last:
            return C(ps[-1][i])
    sl = slice_const(kk.atom) if isinstance(kk, N) and kk.atom is not None and kk.atom.op == 'slice' else None
    if sl is not None and sl.step in (None, 1):
        a, b = sl.start or 0, sl.stop
        if 0 <= a <= first and (b is None or b < 0 and -b <= last):
            out = list(ps)
            if b is not None:
                out[-1] = out[-1][:b]
            if a:
                out[0] = out[0][a:]
            return unpieces(it, st, [p for p in out if p != ''])
        if 0 <= a <= first and b is not None and 0 <= b <= first:
            return C(ps[0][a:b])
    raise Undecided('position within a formatted number')


def _norm_idx(k):
    return k


ELEMENTWISE = {'floor', 'round', 'trunc', 'relu', 'pow2', 'log2', 'log', 'sqrt', 'inv', 'pow', 'sign', 'ind', 'gt0', 'eq0', 'sg', 'tz'}


def newaxis(x):
    """x with a trailing axis of size one"""
    if x.const is not None:
        return x
    return of_atom(Atom('newax', (x,), integral=integral(x), bnd=T.bounds(x)))


def strip_newaxis(v):
    """the value without its trailing axis of size one, or None if it has other extents there"""
    ok = [True]

    def f(a):
        if a.op == 'newax':
            return a.args[0]
        if a.op == 'ind' or a.op in ELEMENTWISE or a.op in ('ln2', 'inf', 'pi') or a.op in REDUCE and a.args[1] == 'all' and not a.args[2]:
            return None if a.op not in REDUCE else of_atom(a)
        ok[0] = False
        return of_atom(a)
    r = T.rebuild(v, f)
    return r if ok[0] else None


def newaxis_index(it, st, x, kk):
    if not isinstance(kk, Tup) or len(kk.items) != 2:
        return None
    a, b = kk.items
    ell = lambda z: isinstance(z, C) and z.v is Ellipsis
    if ell(a) and b == NONE:
        return newaxis(x)
    if a == NONE and ell(b) and any(isinstance(y, Atom) and y.op == 'iota' for y in T.walk(x)):
        return x
    if ell(a) and isinstance(b, N) and b.const in (0, -1):
        return strip_newaxis(x)
    return None


def trailing_zeros(x):
    if x.const is not None:
        n = int(x.const)
        return num((n & -n).bit_length() - 1) if n else ZERO
    y, f = T.strip_pos(x)
    if T.lead(y) < 0:
        y = neg(y)
    if f is not None and integral(y):
        l = T.log2(f)
        if integral(l):
            return add(trailing_zeros(y), l)
    x = y if f is None else x
    return of_atom(Atom('tz', (x,), integral=True, bnd=(Fraction(0), False, None, False)))


def count_divisible(v):
    """#{j in 1..n-1: 2^j divides x} for x < 2^n is the number of trailing zeros of x (x != 0)"""
    for a in [y for y in T.walk(v) if isinstance(y, Atom) and y.op == 'ind']:
        if T.of_atom(a).key != v.key:
            continue
        q = a.args[0]
        if q.op != 'eq0':
            return None
        iot = [y for y in T.walk(q.args[0]) if isinstance(y, Atom) and y.op == 'iota']
        xs = [y for y in T.walk(q.args[0]) if isinstance(y, Atom) and y.op == 'newax']
        if not iot or len({y.key for y in iot}) != 1 or len({y.key for y in xs}) != 1:
            return None
        x, j = of_atom(xs[0]), add(of_atom(iot[0]), ONE)
        d = T.pow2(j)
        want = eq0(sub(x, mul(d, nfloor(div(x, d)))))
        n = add(iot[0].args[0], ONE)
        mx = mk_reduce('rmax', xs[0].args[0], 'all', False)
        bound = nceil(T.log2(add(mx, ONE)))
        if cond_atom(q) == want and n == bound and integral(xs[0].args[0]):
            y = xs[0].args[0]
            z = ind(eq0(y))
            return add(mul(z, iot[0].args[0]), mul(sub(ONE, z), trailing_zeros(y)))
    return None


def explicit(v, limit=4096):
    """progressions and fresh arrays of statically known length, element by element"""
    if not isinstance(v, N):
        return v
    if v.atom is not None and v.atom.op == 'empty':
        n = v.atom.args[0]
        n = n.items[0] if isinstance(n, Tup) and len(n.items) == 1 else n
        if isinstance(n, N) and n.const is not None and 0 < n.const <= limit:
            return Arr([of_atom(Atom('uninit', (num(j),))) for j in range(int(n.const))])
        return v
    ns = {y.args[0].key: y.args[0] for y in T.walk(v) if isinstance(y, Atom) and y.op == 'iota'}
    if len(ns) != 1:
        return v
    n, = ns.values()
    if n.const is None or not 0 < n.const <= limit:
        return v
    return Arr([T.rebuild(v, lambda a, j=j: num(j) if a.op == 'iota' else None) for j in range(int(n.const))])


def store_index(it, st, o, k, v):
    v = it.deref(v, st)
    if isinstance(k, N) and k.atom is not None and k.atom.op == 'slice' and slice_const(k.atom) is not None:
        x, y = explicit(prep(o)), explicit(prep(v))
        if isinstance(x, Arr):
            ix = range(len(x.items))[slice_const(k.atom)]
            if isinstance(y, Arr) and len(y.items) not in (1, len(ix)):
                raise ShapeMismatch(f'{len(y.items)} values stored into {len(ix)} places')
            new = list(x.items)
            for p, j in enumerate(ix):
                new[j] = (y.items[p if len(y.items) > 1 else 0] if isinstance(y, Arr) else y)
            return Arr(new)
    if k == TRUE or k == FALSE or isinstance(k, Ite) and is_cond(k):
        m = ind(k)
        return lift(lambda x, y: add(mul(m, to_n(y)), mul(sub(ONE, m), to_n(x))), o, v)

    def f(x, kk, y):
        if isinstance(kk, N) and kk.atom is not None and kk.atom.op == 'ind':
            return add(mul(kk, to_n(y)), mul(sub(ONE, kk), to_n(x)))
        return of_atom(Atom('store', (x, kk, y)))
    return apply(f, o, k, prep(v))


# ------------------------------------------------------------------ shapes
ELEM = {'floor', 'round', 'trunc', 'relu', 'pow2', 'log2', 'log', 'sqrt', 'inv', 'ind', 'gt0', 'eq0', 'sg', 'fn', 'pow', 'sign', 'eq', 'cast'}
REDUCE = {'rmax', 'rmin', 'rsum', 'rmean', 'rvar', 'rstd', 'rprod', 'rall', 'rany'}


def shape_of(it, st, v):
    """Tup of dims or None"""
    if isinstance(v, Ite):
        return None
    if isinstance(v, Arr):
        return Tup((num(len(v.items)),))
    if isinstance(v, N):
        if v.sh is not None:
            return v.sh
        s = it_shapes(it).get(v.key)
        if s is not None:
            return s
        if v.atom is not None:
            return atom_shape(it, st, v.atom)
        shapes = []
        for m in v.p:
            for a, e in m:
                s = atom_shape(it, st, a)
                if s is None:
                    return None
                shapes.append(s)
        return bcast(shapes)
    if isinstance(v, C):
        return Tup(())
    return None


def with_shape(it, v, shp):
    if not isinstance(v, N) or not isinstance(shp, Tup):
        return v
    if v.const is not None or v.atom is not None and v.atom.op == 'inf':
        if v.sh is not None and v.sh == shp:
            return v
        r = N(v.p)
        r.sh = shp
        return r
    it_shapes(it)[v.key] = shp
    return v


def filled_like(it, st, x, v):
    x = it.deref(x, st)
    if isinstance(x, Arr):
        return Arr([v] * len(x.items))
    return with_shape(it, v, shape_of(it, st, x))


def it_shapes(it):
    if not hasattr(it, 'shapes'):
        it.shapes = {}
    return it.shapes


def atom_shape(it, st, a):
    s = it_shapes(it).get(a.key)
    if s is not None:
        return s
    if a.op in ELEM:
        sh = []
        for x in a.args:
            if isinstance(x, N):
                t = shape_of(it, st, x)
            elif isinstance(x, Atom):
                t = atom_shape(it, st, x)
            else:
                continue
            if t is None:
                return None
            sh.append(t)
        return bcast(sh)
    if a.op in ('ln2', 'pi', 'inf', 'nan', 'len'):
        return Tup(())
    if a.op == 'iota':
        return Tup((a.args[0],))
    if a.op in REDUCE:
        s = shape_of(it, st, a.args[0])
        if s is None:
            return None
        ax, kd = a.args[1], a.args[2]
        if ax == 'all':
            return Tup([ONE] * len(s.items)) if kd else Tup(())
        if not isinstance(ax, tuple):
            return None
        out = []
        for i, d in enumerate(s.items):
            if i in ax:
                if kd:
                    out.append(ONE)
            else:
                out.append(d)
        return Tup(out)
    if a.op in ('reshape', 'bcast') and isinstance(a.args[1], Tup):
        return a.args[1]
    if a.op == 'matmul':
        p, q = shape_of(it, st, a.args[0]), shape_of(it, st, a.args[1])
        if p is not None and q is not None and not a.args[2] and not a.args[3]:
            return Tup(p.items[:-1] + q.items[-1:])
    if a.op == 'conv':
        return conv_out_shape(it, st, a)
    if a.op == 'pool':
        return pool_out_shape(it, st, a)
    if a.op == 'concat' and isinstance(a.args[0], Tup) and isinstance(a.args[1], N) and a.args[1].const is not None:
        ss = [shape_of(it, st, i) for i in a.args[0].items]
        if None not in ss and len({len(s.items) for s in ss}) == 1:
            ax = int(a.args[1].const) % len(ss[0].items)
            if not any(s.items[ax] == NONE for s in ss):
                d = ZERO
                for s in ss:
                    d = T.add(d, s.items[ax])
                return Tup(ss[0].items[:ax] + (d,) + ss[0].items[ax + 1:])
    if a.op == 'transpose' and isinstance(a.args[1], Tup):
        s = shape_of(it, st, a.args[0])
        if s is not None and len(s.items) == len(a.args[1].items) and all(x.const is not None for x in a.args[1].items):
            return Tup([s.items[int(x.const)] for x in a.args[1].items])
    return None


def pool_out_shape(it, st, a):
    kind, x, k, s, pad, first = a.args
    p = shape_of(it, st, x)
    if p is None or len(p.items) != len(k.items) + 2:
        return None
    sp = p.items[2:] if first else p.items[1:-1]
    out = [NONE if d == NONE else T.nceil(T.div(d, t)) if pad == 'SAME' else T.nceil(T.div(T.sub(d, T.sub(w, ONE)), t)) for d, w, t in zip(sp, k.items, s.items)]
    return Tup(p.items[:2] + tuple(out)) if first else Tup(p.items[:1] + tuple(out) + p.items[-1:])


def conv_out_shape(it, st, a):
    p, q = shape_of(it, st, a.args[0]), shape_of(it, st, a.args[1])
    s, pad, df, d = a.args[2:6]
    if p is None or q is None or len(p.items) != len(q.items) or not isinstance(pad, C) or pad.v not in ('VALID', 'SAME'):
        return None
    n = len(p.items) - 2
    if not isinstance(s, Tup) or not isinstance(d, Tup) or len(s.items) != n or len(d.items) != n:
        return None
    if not isinstance(df, C) or not isinstance(df.v, str):
        return None
    first = df.v[1] == 'C'
    sp = p.items[2:] if first else p.items[1:-1]
    out = []
    for x, k, t, l in zip(sp, q.items[:n], s.items, d.items):
        if x == NONE:
            out.append(NONE)
        elif pad.v == 'SAME':
            out.append(T.nceil(T.div(x, t)))
        else:
            out.append(T.nceil(T.div(T.add(T.sub(x, T.mul(T.sub(k, ONE), l)), ZERO), t)))
    return Tup([p.items[0], q.items[-1]] + out) if first else Tup([p.items[0]] + out + [q.items[-1]])


def bcast(shapes):
    out = []
    n = max((len(s.items) for s in shapes), default=0)
    for i in range(n):
        d = None
        for s in shapes:
            j = i - (n - len(s.items))
            if j < 0:
                continue
            x = s.items[j]
            if d is None or d == ONE:
                d = x
            elif x != ONE and x != d:
                if isinstance(d, C):
                    d = x
                elif not isinstance(x, C):
                    return None
        out.append(d)
    return Tup(out)


def shape_val(it, st, v):
    v = it.deref(v, st)
    if isinstance(v, Ite):
        return apply(lambda x: shape_val(it, st, x), prep(v))
    s = shape_of(it, st, v)
    if s is not None:
        return s
    if isinstance(v, N):
        return of_atom(Atom('shape', (v,)))
    raise Undecided('shape')


# ------------------------------------------------------------------ dtypes
def cast(it, st, x, dtype):
    x = it.deref(x, st)
    if dtype is None or dtype == NONE:
        return prep(x) if isinstance(x, Ite) and is_cond(x) and False else x
    d = dtype_name(dtype)
    sx = seq_items(it, st, x)
    if sx is not None:
        x = to_arr(it, st, x)
    if d == 'object':
        return x

    def f(v):
        v = to_n(v)
        if d is None or d in ('float32', 'float64', 'floatx', 'float', 'double', 'single', 'same'):
            return v
        if d in ('int8', 'int16', 'int32', 'int64', 'int'):
            return ntrunc(v)
        if d in ('uint8', 'uint16', 'uint32', 'uint64'):
            b = T.bounds(v)
            if b[0] is not None and b[0] >= 0:
                return ntrunc(v)
            return of_atom(Atom('cast', (v, d)))
        if d == 'bool':
            return ind(cnot(eq0(v)))
        return of_atom(Atom('cast', (v, d)))
    if d == 'bool' and is_cond(x):
        return x
    if d == 'bool' and isinstance(x, N):
        return cnot(eq0(x))
    return lift(f, x)


DT = {'float32', 'float64', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'bool', 'float16', 'bfloat16', 'half', 'double', 'single', 'int', 'float', 'object', 'floatx', 'str', 'qint8'}


def dtype_name(d):
    if isinstance(d, C) and isinstance(d.v, str):
        return d.v if d.v in DT else None
    if isinstance(d, Ext):
        n = d.path.rsplit('.', 1)[-1].rstrip('_')
        return n if n in DT else None
    if isinstance(d, N):
        return 'same'
    if isinstance(d, Ite):
        return 'same'
    return None


# ------------------------------------------------------------------ call signatures
def bindsig(sig, args, kw, alias=()):
    """positional/keyword arguments -> dict by canonical names"""
    names = sig.split()
    out = {}
    if len(args) > len(names):
        raise Undecided('too many positional arguments for a library model')
    for n, a in zip(names, args):
        out[n] = a
    al = dict(alias)
    for k, v in kw.items():
        k = al.get(k, k)
        out[k] = v
    out.pop('name', None)
    return out


ALIAS = {'input_tensor': 'x', 'input': 'x', 'a': 'x', 'tensor': 'x', 'arr': 'x', 'value': 'x', 'features': 'x', 'inputs': 'x', 't': 'x', 'object': 'x', 'values': 'x', 'p_object': 'x',
         'keep_dims': 'keepdims', 'reduction_indices': 'axis', 'clip_value_min': 'lo', 'clip_value_max': 'hi', 'a_min': 'lo', 'a_max': 'hi', 'min': 'lo', 'max': 'hi', 'min_value': 'lo', 'max_value': 'hi',
         'newshape': 'shape', 'dims': 'shape', 'perm': 'axes', 'condition': 'c'}


class Model:
    table = {}


def model(*paths, sig=None):
    def deco(f):
        for p in paths:
            Model.table[p] = (f, sig)
        return f
    return deco


def call_ext(it, st, path, args, kw, node=None):
    op = it.opaque.get(path)
    if op is not None:
        b = {str(i): a for i, a in enumerate(args)}
        b.update(kw)
        if isinstance(op, dict) and op.get('sig'):
            b = bindsig(op['sig'], args, kw)
        if isinstance(op, dict) and 'fn' in op:
            return op['fn'](it, st, b)
        return it.opaque_result(st, path, DictV([(C(k), it.freeze(v, st)) for k, v in sorted(b.items())]), op if isinstance(op, dict) else {})
    m = Model.table.get(path)
    if m is None and path.startswith('np.linalg'):
        m = None
    if m is None:
        return unknown_ext(it, st, path, args, kw)
    f, sig = m
    if sig is None:
        return f(it, st, args, kw)
    al = {k: v for k, v in ALIAS.items()}
    names = sig.split()
    for n in names:
        al.pop(n, None)
    b = bindsig(sig, args, kw, al)
    return f(it, st, **b) if not any(k not in names + ['dtype'] for k in b) else unknown_ext(it, st, path, args, kw)


PURE_PREFIX = ('tf.', 'np.', 'K.', 'keras.activations.', 'math.')


def unknown_ext(it, st, path, args, kw):
    ops = [it.freeze(it.deref(a, st), st) for a in args]
    kws = sorted((k, it.freeze(it.deref(v, st), st)) for k, v in kw.items() if k != 'name')
    known = path in KNOWN_UNINTERPRETED or path.startswith('keras.activations.')
    if not known:
        it.unmodelled.add(path)
    vals = ops + [v for _, v in kws]
    conv = [prep(v) for v in vals]

    def mk(*vs):
        a = tuple(vs[:len(ops)])
        k = tuple((n, v) for (n, _), v in zip(kws, vs[len(ops):]))
        return of_atom(Atom('ext' if not known else 'fn', (path,) + a + k))
    if not path.startswith(PURE_PREFIX):
        it.event(st, 'ext:' + path, Tup(ops), DictV([(C(k), v) for k, v in kws]))
    return apply(mk, *conv) if conv else mk()


KNOWN_UNINTERPRETED = set('''tf.nn.softmax tf.nn.sigmoid tf.sigmoid tf.tanh tf.nn.tanh tf.exp tf.expm1 tf.log1p tf.sin tf.cos tf.erf tf.nn.elu tf.nn.selu tf.nn.gelu
tf.nn.leaky_relu tf.nn.relu6 tf.nn.swish tf.nn.silu tf.nn.softplus tf.nn.convolution tf.nn.conv2d tf.nn.conv1d tf.nn.max_pool2d tf.nn.max_pool1d tf.nn.avg_pool2d tf.nn.avg_pool1d
tf.nn.max_pool tf.nn.avg_pool tf.einsum tf.tensordot tf.cumsum np.exp np.sin np.cos np.tanh tf.linspace tf.range np.einsum np.cumsum tf.sort np.sort np.unique np.argmax np.argmin tf.argmax tf.argmin
np.median np.percentile np.quantile tf.roll np.roll tf.reverse np.flip np.repeat tf.repeat tf.tile np.tile tf.pad np.pad tf.one_hot tf.cumprod np.linspace np.arange np.empty np.gcd
np.diff np.nextafter tf.nn.moments np.histogram math.gcd np.dot np.std np.outer np.trace os.environ.get os.getenv keras.layers.Input np.full keras.layers.Activation keras.layers.ReLU
time.time random.random random.randint np.random.rand np.random.randn np.random.uniform np.random.normal tf.random.normal tf.random.stateless_uniform keras.initializers.Constant
np.left_shift np.right_shift tf.bitcast tf.nn.depthwise_conv2d tf.size np.size tf.boolean_mask tf.strided_slice tf.slice tf.gather_nd tf.scatter_nd'''.split())


# ------------------------------------------------------------------ elementwise models
def e1(fn, *paths):
    @model(*paths, sig='x')
    def f(it, st, x, dtype=None):
        x = it.deref(x, st)
        sx = seq_items(it, st, x)
        if sx is not None:
            x = to_arr(it, st, x)
        r = num1(fn)(x)
        return r


def e2(fn, *paths):
    @model(*paths, sig='x y')
    def f(it, st, x, y, dtype=None):
        x, y = it.deref(x, st), it.deref(y, st)
        if seq_items(it, st, x) is not None:
            x = to_arr(it, st, x)
        if seq_items(it, st, y) is not None:
            y = to_arr(it, st, y)
        return num1(fn)(x, y)


def to_arr(it, st, x):
    s = seq_items(it, st, x)
    if s is None:
        return it.deref(x, st)
    return Arr([to_arr(it, st, y) for y in s])


e1(nfloor, 'tf.floor', 'np.floor', 'math.floor', 'K.floor')
e1(nceil, 'tf.ceil', 'np.ceil', 'math.ceil')
e1(nround, 'tf.round', 'np.round', 'np.rint', 'K.round', 'tf.rint', 'np.around')
e1(ntrunc, 'np.trunc', 'np.fix', 'math.trunc')
e1(nabs, 'tf.abs', 'np.abs', 'np.absolute', 'K.abs', 'math.fabs', 'np.fabs')
e1(nsign, 'tf.sign', 'np.sign', 'K.sign')
e1(neg, 'tf.negative', 'np.negative')
e1(relu, 'tf.nn.relu', 'keras.activations.relu', 'K.relu')
e1(lambda x: x, 'keras.activations.linear', 'tf.identity', 'tf.convert_to_tensor', 'np.ascontiguousarray', 'tf.ensure_shape_', 'K.get_value', 'tf.real', 'np.squeeze_')
e1(nsqrt, 'tf.sqrt', 'np.sqrt', 'math.sqrt', 'K.sqrt')
e1(lambda x: T.inv(nsqrt(x)), 'tf.rsqrt')
e1(lambda x: T.inv(x), 'tf.reciprocal', 'np.reciprocal')
e1(lambda x: mul(x, x), 'tf.square', 'np.square', 'K.square')
e1(T.log, 'tf.log', 'np.log', 'math.log', 'K.log')
e1(T.log2, 'np.log2', 'math.log2', 'tf.experimental.numpy.log2')
e1(pow2, 'np.exp2', 'math.exp2')
e2(lambda a, b: add(a, b), 'tf.add', 'np.add')
e2(sub, 'tf.subtract', 'np.subtract')
e2(mul, 'tf.multiply', 'np.multiply')
e2(_div, 'tf.divide', 'np.divide', 'tf.truediv', 'np.true_divide', 'tf.div')
e2(lambda a, b: _div(a, b), 'tf.math.divide_no_nan_')
e2(nfloordiv, 'tf.floordiv', 'np.floor_divide')
e2(nfloormod, 'tf.floormod', 'np.mod', 'np.remainder', 'tf.mod')
e2(nmax, 'tf.maximum', 'np.maximum', 'K.maximum', 'np.fmax')
e2(nmin, 'tf.minimum', 'np.minimum', 'K.minimum', 'np.fmin')
e2(_pow, 'tf.pow', 'np.power', 'math.pow', 'K.pow', 'np.float_power')
e2(lambda a, b: mul(a, pow2(b)), 'np.ldexp', 'math.ldexp')


@model('tf.identity', 'tf.convert_to_tensor', 'np.asarray', 'np.array', 'tf.constant', 'tf.cast', 'K.cast', 'K.constant', 'np.float32', 'np.float64', 'np.asfarray', sig='x dtype shape')
def m_ident(it, st, x, dtype=None, shape=None, copy=None):
    x0 = it.deref(x, st)
    s = seq_items(it, st, x0)
    if s is not None:
        x0 = to_arr(it, st, x0)
        if dtype is not None:
            return cast(it, st, x0, dtype)
        return x0
    if isinstance(x0, Ref):
        return x0
    r = cast(it, st, x0, dtype)
    if shape is not None and shape != NONE:
        return of_atom(Atom('bcast', (r, it.freeze(shape, st)))) if isinstance(r, N) else r
    return r


for _n in ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'bool_', 'float16'):
    def _mk(_n=_n):
        @model('np.' + _n, sig='x')
        def f(it, st, x=num(0)):
            return cast(it, st, x, C(_n.rstrip('_')))
    _mk()


@model('K.cast_to_floatx', sig='x')
def m_floatx(it, st, x):
    return cast(it, st, x, C('float32'))


@model('K.floatx', sig='')
def m_fx(it, st):
    return C('floatx')


@model('tf.stop_gradient', 'K.stop_gradient', sig='x')
def m_sg(it, st, x):
    x = it.deref(x, st)
    if getattr(it, 'sg_mode', 'erase') == 'erase':
        return prep(x)
    return lift(lambda v: _sg(to_n(v)), x)


def _sg(v):
    if v.const is not None:
        return v
    # (x1 + x2) under stop_gradient: keep as one atom
    return of_atom(Atom('sg', (v,)))


@model('tf.where', 'np.where', sig='c x y')
def m_where(it, st, c, x=None, y=None):
    if x is None or y is None:
        raise Undecided('where with one argument')
    c, x, y = it.deref(c, st), it.deref(x, st), it.deref(y, st)

    def f(cc, a, b):
        cc, a, b = to_n(cc), to_n(a), to_n(b)
        return add(mul(cc, a), mul(sub(ONE, cc), b))
    if is_cond(c):
        if c == TRUE:
            return prep(x)
        if c == FALSE:
            return prep(y)
        c = ind(c)
    else:
        c = apply(lambda z: ind(it.truth(z, st)) if not isinstance(z, Arr) else z, c)
    for z in (x, y):
        if isinstance(z, Ref):
            raise Undecided('where over container')
    if _is_inf_branch(x) or _is_inf_branch(y):
        return apply(lambda cc, a, b: of_atom(Atom('where', (cc, a, b))), c, prep(x), prep(y))
    return lift(f, c, x, y)


def _is_inf_branch(x):
    return False


@model('tf.clip_by_value', 'np.clip', 'K.clip', sig='x lo hi')
def m_clip(it, st, x, lo=NONE, hi=NONE, dtype=None):
    x, lo, hi = it.deref(x, st), it.deref(lo, st), it.deref(hi, st)

    def f(v, l, h):
        v = to_n(v)
        if h != NONE:
            v = nmin(v, to_n(h))
        if l != NONE:
            v = nmax(v, to_n(l))
        return v
    return lift(f, x, lo, hi)


@model('tf.zeros_like', 'np.zeros_like', 'K.zeros_like', sig='x dtype')
def m_zl(it, st, x, dtype=None):
    return filled_like(it, st, x, ZERO)


@model('tf.ones_like', 'np.ones_like', 'K.ones_like', sig='x dtype')
def m_ol(it, st, x, dtype=None):
    return filled_like(it, st, x, ONE)


@model('np.full_like', 'tf.fill_like', sig='x fill_value dtype')
def m_fl(it, st, x, fill_value, dtype=None):
    return it.deref(fill_value, st)


def _filled(it, st, shape, v):
    s = it.deref(shape, st)
    s = (s,) if isinstance(s, N) and s.const is not None else seq_items(it, st, s)
    if s is not None and v.const is not None:
        return with_shape(it, v, Tup(s))
    return v


@model('tf.zeros', 'np.zeros', 'K.zeros', sig='shape dtype')
def m_zeros(it, st, shape, dtype=None):
    return _filled(it, st, shape, ZERO)


@model('tf.ones', 'np.ones', 'K.ones', sig='shape dtype')
def m_ones(it, st, shape, dtype=None):
    return _filled(it, st, shape, ONE)


@model('tf.fill', 'np.full', sig='shape fill_value dtype')
def m_full(it, st, shape, fill_value, dtype=None):
    return lift(lambda v: _filled(it, st, shape, to_n(v)), it.deref(fill_value, st))


@model('tf.shape', 'K.int_shape', 'np.shape', 'K.shape', sig='x')
def m_shape(it, st, x):
    return shape_val(it, st, x)


@model('tf.rank', 'np.ndim', 'K.ndim', sig='x')
def m_rank(it, st, x):
    return b_len(it, st, [shape_val(it, st, x)], {})


@model('tf.TensorShape', sig='x')
def m_tshape(it, st, x):
    s = seq_items(it, st, x)
    return Tup(s) if s is not None else x


@model('tf.random.uniform', 'K.random_uniform', sig='shape lo hi dtype seed')
def m_uniform(it, st, shape=None, lo=num(0), hi=num(1), dtype=None, seed=None):
    lo, hi = it.deref(lo, st), it.deref(hi, st)
    sh = it.freeze(it.deref(shape, st), st) if shape is not None else NONE
    it.event(st, 'random', sh)

    def f(l, h):
        u = of_atom(Atom('U', (sh,), bnd=(Fraction(0), False, Fraction(1), True)))
        l, h = to_n(l), to_n(h)
        return add(l, mul(sub(h, l), u))
    return apply(f, NONE_to(lo, 0), NONE_to(hi, 1))


for p, (al) in (('tf.random.uniform', {'minval': 'lo', 'maxval': 'hi'}),):
    ALIAS.update(al)


def NONE_to(v, d):
    return num(d) if v is None or v == NONE else v


# comparisons as functions
for _p, _o in (('less', ast.Lt), ('less_equal', ast.LtE), ('greater', ast.Gt), ('greater_equal', ast.GtE), ('equal', ast.Eq), ('not_equal', ast.NotEq)):
    def _mkc(_p=_p, _o=_o):
        @model('tf.' + _p, 'np.' + _p, 'K.' + _p, sig='x y')
        def f(it, st, x, y):
            return compare(it, st, _o(), x, y)
    _mkc()


@model('tf.logical_and', 'np.logical_and', sig='x y')
def m_land(it, st, x, y):
    return cand(as_cond(it, st, x), as_cond(it, st, y))


@model('tf.logical_or', 'np.logical_or', sig='x y')
def m_lor(it, st, x, y):
    return cor(as_cond(it, st, x), as_cond(it, st, y))


@model('tf.logical_not', 'np.logical_not', sig='x')
def m_lnot(it, st, x):
    return cnot(as_cond(it, st, x))


@model('tf.logical_xor', 'np.logical_xor', sig='x y')
def m_lxor(it, st, x, y):
    return bitop(it, st, ast.BitXor, as_cond(it, st, x), as_cond(it, st, y))


def as_cond(it, st, x):
    x = it.deref(x, st)
    return x if is_cond(x) else it.truth(x, st)


@model('np.isinf', 'tf.is_inf', 'math.isinf', sig='x')
def m_isinf(it, st, x):
    return apply(lambda v: C(_has_inf(v)) if isinstance(v, N) and (v.const is not None or _has_inf(v)) else cond_atom(Atom('isinf', (v,))), it.deref(x, st))


@model('np.isnan', 'tf.is_nan', 'math.isnan', sig='x')
def m_isnan(it, st, x):
    return apply(lambda v: cond_atom(Atom('isnan', (v,))) if not (isinstance(v, N) and v.const is not None) else FALSE, it.deref(x, st))


@model('np.isfinite', 'tf.is_finite', 'math.isfinite', sig='x')
def m_isfin(it, st, x):
    return apply(lambda v: TRUE if isinstance(v, N) and v.const is not None else cnot(cond_atom(Atom('isinf', (v,)))), it.deref(x, st))


def _has_inf(v):
    return any(a.op == 'inf' for m in v.p for a, e in m)


# ------------------------------------------------------------------ reductions
def norm_axis(it, st, x, axis):
    if axis is None or axis == NONE:
        return 'all'
    ax = it.deref(axis, st)
    s = seq_items(it, st, ax)
    if s is None and isinstance(ax, Arr):
        s = ax.items
    if isinstance(ax, C) and isinstance(ax.v, bool):
        ax = num(int(ax.v))
    lst = list(s) if s is not None else [ax]
    out = []
    for a in lst:
        if not (isinstance(a, N) and a.const is not None):
            return it.freeze(ax, st)
        out.append(int(a.const))
    sh = shape_of(it, st, x) if isinstance(x, N) else None
    if sh is not None:
        r = len(sh.items)
        out = sorted({a % r if -r <= a < r else a for a in out}) if r else []
        if len(out) == r and r > 0:
            return 'all'
    return tuple(sorted(set(out)))


def reduce_(it, st, kind, x, axis, keepdims):
    x = it.deref(x, st)
    kd = keepdims is not None and keepdims != NONE and it.truth(keepdims, st) == TRUE
    sx = seq_items(it, st, x)
    if sx is not None:
        x = to_arr(it, st, x)
    if is_cond(x) and kind in ('rall', 'rany'):
        if x == TRUE or x == FALSE:
            return x
        ax = norm_axis(it, st, ind(x), axis)
        if ax == ():
            return x
        # any(c) == not all(not c)
        if kind == 'rall':
            return _all_atom(x, ax, kd)
        return cnot(_all_atom(cnot(x), ax, kd))
    if isinstance(axis, Ite):
        return it.fork(axis, st, lambda a, s: reduce_(it, s, kind, x, a, keepdims))

    def f(v):
        if isinstance(v, Arr):
            return reduce_arr(it, st, kind, v, axis)
        v = to_n(v)
        if kind in ('rall', 'rany'):
            return reduce_(it, st, kind, cnot(eq0(v)), axis, keepdims)
        ax = norm_axis(it, st, v, axis)
        if kind == 'rsum' and ax == (-1,):
            r = count_divisible(v)
            if r is not None:
                return r
        if ax == 'all' and kind in ('rmax', 'rmin') and any(isinstance(y, Atom) and y.op == 'newax' for y in T.walk(v)):
            r = strip_newaxis(v)
            if r is not None:
                v = r
        if ax == ():
            return v if kind not in ('rvar', 'rstd') else of_atom(Atom(kind, (v, ax, kd)))
        sh = shape_of(it, st, v)
        if sh is not None and isinstance(ax, tuple) and all(a < len(sh.items) and sh.items[a] == ONE for a in ax) and kd and kind not in ('rvar', 'rstd'):
            return v
        return mk_reduce(kind, v, ax, kd)
    return apply(f, prep(x))


def _all_atom(c, ax, kd):
    # all(a & b) == all(a) & all(b) for conjunctions of literals
    if isinstance(c, Ite):
        lits = []
        cur = c
        while isinstance(cur, Ite):
            if cur.l == FALSE:
                lits.append(cond_atom(cur.a))
                cur = cur.h
            elif cur.h == FALSE:
                lits.append(cnot(cond_atom(cur.a)))
                cur = cur.l
            else:
                break
        if cur == TRUE and len(lits) > 1:
            r = TRUE
            for l in lits:
                r = cand(r, _all_atom(l, ax, kd))
            return r
    return cond_atom(Atom('rall', (ind(c), ax, kd)))


MONOTONE = {'floor', 'round', 'trunc', 'log2', 'log', 'sqrt', 'pow2', 'relu'}


def mk_reduce(kind, v, ax, kd):
    if v.const is not None and kind in ('rmax', 'rmin', 'rmean'):
        return v
    if v.const == 0:
        return ZERO
    if kind in ('rmax', 'rmin') and v in (num(float('inf')), neg(num(float('inf')))):
        return v
    if kind in ('rmax', 'rmin', 'rmean', 'rsum', 'rvar', 'rstd'):
        c0 = v.p.get((), Fraction(0))
        base = ZERO
        if c0 and kind in ('rmax', 'rmin', 'rmean'):
            v = sub(v, num(c0))
            base = num(c0)
        if c0 and kind in ('rvar', 'rstd'):
            v = sub(v, num(c0))
        c = T.lead(v)
        if c < 0 and kind in ('rmax', 'rmin'):
            kind = {'rmax': 'rmin', 'rmin': 'rmax'}[kind]
        v = T.scale(v, 1 / c)
        if kind in ('rmax', 'rmin') and v.atom is not None and v.atom.op in MONOTONE:
            # the extremum of a non-decreasing function is the function of the extremum
            return add(base, T.scale(T.REBUILD[v.atom.op](mk_reduce(kind, v.atom.args[0], ax, kd)), c))
        k = c * c if kind == 'rvar' else abs(c) if kind == 'rstd' else c
        a = v.atom
        # nested max over disjoint axes without keepdims is left alone
        integ = integral(v)
        lo, ls, hi, hs = T.bounds(v)
        bnd = None
        if kind in ('rmax', 'rmin', 'rmean') and (lo is not None or hi is not None):
            bnd = (lo, ls, hi, hs)
        if kind in ('rvar', 'rstd'):
            bnd = (Fraction(0), False, None, False)
        if kind == 'rsum' and lo is not None and lo >= 0:
            bnd = (Fraction(0), False, None, False)
        r = of_atom(Atom(kind, (v, ax, kd), integral=integ and kind != 'rmean', bnd=bnd))
        return add(base, T.scale(r, k))
    return of_atom(Atom(kind, (v, ax, kd), integral=integral(v)))


def reduce_arr(it, st, kind, v, axis):
    items = v.items
    nested = any(isinstance(x, Arr) for x in items)
    ax = None if axis is None or axis == NONE else axis
    if nested:
        if isinstance(ax, N) and ax.const == 0:
            n = len(items[0].items)
            return Arr([reduce_arr(it, st, kind, Arr([x.items[i] for x in items]), None) for i in range(n)])
        if ax is None:
            flat = []
            for x in items:
                flat += list(x.items) if isinstance(x, Arr) else [x]
            return reduce_arr(it, st, kind, Arr(flat), None)
        if isinstance(ax, N) and ax.const in (1, -1):
            return Arr([reduce_arr(it, st, kind, x, None) for x in items])
        raise Undecided('axis')
    if ax is not None and not (isinstance(ax, N) and ax.const in (0, -1)):
        raise Undecided('axis')
    if kind in ('rall', 'rany'):
        r = TRUE if kind == 'rall' else FALSE
        for x in items:
            c = x if is_cond(x) else it.truth(x, st)
            r = cand(r, c) if kind == 'rall' else cor(r, c)
        return r
    items = [prep(x) for x in items]
    if not items:
        return {'rsum': ZERO, 'rprod': ONE}[kind]
    if any(isinstance(x, C) and x.v is None for x in items):
        raise Undecided('None in numeric reduction')
    f = {'rmax': nmax, 'rmin': nmin, 'rsum': add, 'rprod': mul}.get(kind)
    if f is None:
        if kind == 'rmean':
            return lift(lambda *xs: T.scale(add(*[to_n(x) for x in xs]), Fraction(1, len(items))), *items)
        raise Undecided(kind)
    r = items[0]
    for x in items[1:]:
        r = num1(f)(r, x)
    return num1(lambda z: z)(r)


for _names, _k in (('tf.reduce_max np.max np.amax K.max', 'rmax'), ('tf.reduce_min np.min np.amin K.min', 'rmin'), ('tf.reduce_sum np.sum K.sum', 'rsum'),
                   ('tf.reduce_mean np.mean K.mean np.average', 'rmean'), ('tf.reduce_prod np.prod K.prod np.product math.prod', 'rprod'), ('tf.reduce_variance np.var K.var', 'rvar'),
                   ('tf.reduce_std np.std K.std', 'rstd'), ('tf.reduce_all np.all K.all', 'rall'), ('tf.reduce_any np.any K.any', 'rany')):
    def _mkr(_names=_names, _k=_k):
        @model(*[n for n in _names.split() if not n.startswith('np.')], sig='x axis keepdims')
        def f(it, st, x, axis=None, keepdims=None, dtype=None):
            return reduce_(it, st, _k, x, axis, keepdims)

        @model(*[n for n in _names.split() if n.startswith('np.')], sig='x axis dtype out keepdims' if _k in ('rsum', 'rmean', 'rprod', 'rvar', 'rstd') else 'x axis out keepdims')
        def g(it, st, x, axis=None, keepdims=None, dtype=None, out=None):
            return reduce_(it, st, _k, x, axis, keepdims)
    _mkr()


# ------------------------------------------------------------------ structural tensor ops
@model('tf.broadcast_to', 'np.broadcast_to', sig='x shape')
def m_bcast(it, st, x, shape):
    x = it.deref(x, st)
    sh = it.freeze(it.deref(shape, st), st)

    def f(v, s):
        v = to_n(v)
        if v.const is not None:
            return v
        xs = shape_of(it, st, v)
        if xs is not None and xs == s:
            return v
        if v.atom is not None and v.atom.op == 'bcast':
            return of_atom(Atom('bcast', (v.atom.args[0], s), integral=integral(v)))
        return of_atom(Atom('bcast', (v, s), integral=integral(v)))
    return apply(f, prep(x), sh)


@model('tf.ensure_shape', sig='x shape')
def m_ens(it, st, x, shape):
    return it.deref(x, st)


@model('tf.reshape', 'np.reshape', 'K.reshape', sig='x shape')
def m_reshape(it, st, x, shape, order=None):
    x = it.deref(x, st)
    sh = it.freeze(it.deref(shape, st), st)

    def f(v, s):
        if isinstance(v, Arr):
            raise Undecided('reshape of array')
        v = to_n(v)
        if v.const is not None:
            return v
        if isinstance(s, N):
            s = Tup((s,)) if s.atom is None or s.atom.op not in ('shape', 'seqcat', 'idx', 'attr', 'sym', 'call') else s
        return mk_reshape(it, st, v, s)
    return apply(f, prep(x), sh)


def mk_reshape(it, st, v, s):
    if v.atom is not None and v.atom.op == 'reshape':
        v = v.atom.args[0]
    s = resolve_minus_one(shape_of(it, st, v), s)
    if shape_of(it, st, v) == s:
        return v
    return of_atom(Atom('reshape', (v, s), integral=integral(v)))


def resolve_minus_one(have, s):
    if not isinstance(s, Tup) or sum(1 for d in s.items if isinstance(d, N) and d.const == -1) != 1 or have is None:
        return s
    known = [d.const if isinstance(d, N) else None for d in have.items]
    want = [d.const if isinstance(d, N) else None for d in s.items]
    if None in known or None in want or any(d == 0 for d in want):
        return s
    n = m = 1
    for d in known:
        n *= d
    for d in want:
        if d != -1:
            m *= d
    return Tup([num(n / m) if isinstance(d, N) and d.const == -1 else d for d in s.items])


def mk_transpose(it, st, v, a):
    """normalised permutation of the dimensions"""
    sh = shape_of(it, st, v)
    p = None
    if isinstance(a, Tup) and all(isinstance(x, N) and x.const is not None and x.const.denominator == 1 for x in a.items):
        p = [int(x.const) % len(a.items) for x in a.items]
    elif a == NONE and sh is not None:
        p = list(range(len(sh.items)))[::-1]
    if p is None:
        return of_atom(Atom('transpose', (v, a), integral=integral(v)))
    w = v.atom
    if w is not None and w.op == 'transpose' and isinstance(w.args[1], Tup) and len(w.args[1].items) == len(p):
        q = [int(x.const) for x in w.args[1].items]
        v, p = w.args[0], [q[i] for i in p]
    if p == list(range(len(p))):
        return v
    return of_atom(Atom('transpose', (v, Tup([num(i) for i in p])), integral=integral(v)))


@model('tf.transpose', 'np.transpose', 'K.permute_dimensions', sig='x axes')
def m_transpose(it, st, x, axes=None, conjugate=None):
    x = it.deref(x, st)
    if isinstance(x, Arr):
        if all(isinstance(r, Arr) for r in x.items):
            return Arr([Arr([r.items[j] for r in x.items]) for j in range(len(x.items[0].items))])
        return x
    ax = it.freeze(it.deref(axes, st), st) if axes is not None else NONE
    return apply(lambda v, a: mk_transpose(it, st, to_n(v), a), prep(x), ax)


@model('tf.expand_dims', 'np.expand_dims', 'K.expand_dims', sig='x axis')
def m_expand(it, st, x, axis=num(-1)):
    def f(v, a):
        v = to_n(v)
        sh = shape_of(it, st, v)
        if sh is not None and isinstance(a, N) and a.const is not None and v.const is None:
            i = int(a.const)
            i = i if i >= 0 else len(sh.items) + 1 + i
            return mk_reshape(it, st, v, Tup(sh.items[:i] + (ONE,) + sh.items[i:]))
        return of_atom(Atom('expand', (v, a), integral=integral(v)))
    return apply(f, prep(it.deref(x, st)), axis)


@model('tf.squeeze', 'np.squeeze', 'K.squeeze', sig='x axis')
def m_squeeze(it, st, x, axis=NONE):
    def f(v, a):
        v = to_n(v)
        sh = shape_of(it, st, v)
        if sh is not None and v.const is None and not any(d == NONE for d in sh.items):
            idx = None
            if a == NONE:
                if all(d.const is not None for d in sh.items):
                    idx = {i for i, d in enumerate(sh.items) if d == ONE}
            else:
                ax = a.items if isinstance(a, Tup) else (a,)
                if all(isinstance(q, N) and q.const is not None for q in ax):
                    idx = {int(q.const) % len(sh.items) for q in ax}
            if idx is not None and all(sh.items[i] == ONE for i in idx):
                return mk_reshape(it, st, v, Tup([d for i, d in enumerate(sh.items) if i not in idx]))
        return of_atom(Atom('squeeze', (v, a), integral=integral(v)))
    return apply(f, prep(it.deref(x, st)), it.freeze(axis, st))


@model('tf.concat', 'np.concatenate', 'K.concatenate', sig='x axis')
def m_concat(it, st, x, axis=num(0)):
    xs = it.freeze(it.deref(x, st), st)
    if isinstance(xs, (N, Ite)):
        return xs    # a lone tensor is its own concatenation
    ax = it.deref(axis, st)
    if isinstance(xs, (Tup, Arr)) and len(xs.items) == 1:
        return xs.items[0]
    items = [it.deref(i, st) for i in xs.items]
    if isinstance(ax, N) and ax.const is not None and ax.const < 0:
        for i in items:
            sh = shape_of(it, st, i) if isinstance(i, N) else None
            if sh is not None and sh.items:
                ax = num(int(ax.const) % len(sh.items))
                break
    if all(isinstance(i, Arr) for i in items) and isinstance(ax, N) and ax.const in (0, -1):
        return Arr([e for i in items for e in i.items])
    return apply(lambda a, *vs: of_atom(Atom('concat', (Tup(vs), a))), it.freeze(ax, st), *[prep(i) for i in items])


@model('tf.stack', 'np.stack', 'K.stack', sig='x axis')
def m_stack(it, st, x, axis=num(0)):
    xs = it.freeze(it.deref(x, st), st)
    return of_atom(Atom('stack', (xs, it.freeze(axis, st))))


@model('tf.add_n', sig='x')
def m_addn(it, st, x):
    x = it.deref(x, st)
    s = seq_items(it, st, x)
    if s is None:
        return reduce_(it, st, 'rsum', x, num(0), None)
    return reduce_arr(it, st, 'rsum', to_arr(it, st, x), None)


@model('tf.matmul', 'np.matmul', 'np.dot', 'K.dot', 'tf.linalg.matmul', sig='x y transpose_a transpose_b')
def m_matmul(it, st, x, y, transpose_a=FALSE, transpose_b=FALSE):
    x, y = it.deref(x, st), it.deref(y, st)
    ta, tb = it.truth(transpose_a, st) == TRUE, it.truth(transpose_b, st) == TRUE

    def f(a, b):
        return _matmul(to_n(a), to_n(b), ta, tb)
    return lift(f, x, y)


@model('tf.nn.bias_add', sig='x y data_format')
def m_biasadd(it, st, x, y=None, data_format=NONE, bias=None):
    y = bias if y is None else y
    x, y = it.deref(x, st), it.deref(y, st)

    def f(v, b, df):
        v, b = to_n(v), to_n(b)
        if df == NONE or (isinstance(df, C) and isinstance(df.v, str) and not df.v.startswith('NC')):
            return add(v, b)
        return add(v, of_atom(Atom('chfirst', (b,))) if isinstance(df, C) else of_atom(Atom('chlast?', (b, df))))
    return lift(f, x, y, it.freeze(it.deref(data_format, st), st))


ALIAS['bias'] = 'y'


@model('K.bias_add', sig='x y data_format')
def m_kbias(it, st, x, y, data_format=NONE):
    def conv(d):
        if isinstance(d, C) and d.v == 'channels_first':
            return C('NC')
        return NONE
    return m_biasadd(it, st, x, y, apply(conv, data_format))


@model('tf.nn.convolution', sig='x filters strides padding data_format dilations')
def m_conv(it, st, x, filters, strides=NONE, padding=C('VALID'), data_format=NONE, dilations=NONE):
    a, b = it.deref(x, st), it.deref(filters, st)
    rest = [it.freeze(it.deref(v, st), st) for v in (strides, padding, data_format, dilations)]

    def f(u, v, s, p, d, l):
        u, v = to_n(u), to_n(v)
        return of_atom(Atom('conv', (u, v, s, p, d, l), integral=integral(u) and integral(v)))
    return apply(f, prep(a), prep(b), *rest)


def mk_pool(kind, x, ksize, strides, padding, first):
    return of_atom(Atom('pool', (kind, x, ksize, strides, padding, first)))


def spatial(v, rank, first):
    """window parameters of the spatial dimensions"""
    if isinstance(v, N) and v.const is not None:
        return Tup([v] * rank)
    if isinstance(v, Tup):
        n = len(v.items)
        if n == rank:
            return v
        if n == 1:
            return Tup(v.items * rank)
        if n == rank + 2:
            return Tup(v.items[2:] if first else v.items[1:-1])
    raise Undecided('pooling window')


def pool(kind, rank, spell='tf'):
    def h(it, st, x, ksize, strides=NONE, padding=C('VALID'), data_format=NONE, pool_mode=None, pooling_type=None, dilations=None, **kw):
        mode = pool_mode if pool_mode is not None else pooling_type
        if dilations is not None and dilations != NONE:
            raise Undecided('dilated pooling')
        vals = [it.freeze(it.deref(v, st), st) for v in (ksize, strides, padding, data_format, mode if mode is not None else NONE)]

        def f(v, k, s, p, d, m):
            r, kd = rank, kind
            v = to_n(v)
            if r is None:
                sh = shape_of(it, st, v)
                if isinstance(k, Tup) and len(k.items) in (2, 3) and spell == 'pool':
                    r = len(k.items)
                elif sh is not None:
                    r = len(sh.items) - 2
                else:
                    raise Undecided('pooling rank')
            if kd is None:
                if not (isinstance(m, C) and isinstance(m.v, str)):
                    raise Undecided('pooling mode')
                kd = m.v.lower()
            if not (isinstance(p, C) and isinstance(p.v, str)) or not (d == NONE or isinstance(d, C) and isinstance(d.v, str)):
                raise Undecided('pooling padding')
            first = d != NONE and (d.v == 'channels_first' or d.v.upper().startswith('NC'))
            if s == NONE:
                s = k if spell != 'pool' else ONE
            return mk_pool(kd, v, spatial(k, r, first), spatial(s, r, first), p.v.upper(), first)
        return apply(f, prep(it.deref(x, st)), *vals)
    return h


for _n, _k, _r in (('max_pool2d', 'max', 2), ('max_pool1d', 'max', 1), ('avg_pool2d', 'avg', 2), ('avg_pool1d', 'avg', 1), ('max_pool', 'max', None), ('avg_pool', 'avg', None)):
    model('tf.nn.' + _n, sig='x ksize strides padding data_format')(pool(_k, _r))
model('K.pool2d', sig='x ksize strides padding data_format pool_mode')(lambda it, st, x, ksize, strides=ONE, padding=C('valid'), data_format=NONE, pool_mode=C('max'): pool(None, 2)(it, st, x, ksize, strides, padding, data_format, pool_mode=pool_mode))


@model('tf.gather', 'np.take', sig='x indices axis')
def m_gather(it, st, x, indices, axis=NONE, validate_indices=None, batch_dims=None):
    def f(v, i):
        if isinstance(i, Arr):
            return Arr([f(v, j) for j in i.items])
        if isinstance(i, Ite):
            return apply(lambda j: f(v, j), i)
        i = to_n(i)
        if axis in (NONE, num(0)) and i.const is not None and i.const.denominator == 1:
            w = explicit(v)
            if isinstance(w, Arr) and 0 <= i.const < len(w.items):
                return w.items[int(i.const)]
        return of_atom(Atom('gather', (v, i) + (() if axis in (NONE, num(0)) else (axis,))))
    return apply(f, it.deref(x, st), prep(it.deref(indices, st)))


@model('np.linspace', 'tf.linspace', sig='start stop num endpoint retstep dtype')
def m_linspace(it, st, start, stop, num=num(50), endpoint=TRUE, retstep=None, dtype=None):
    """arithmetic progression start, start+step, ... (n terms)"""
    a, b, n = it.deref(start, st), it.deref(stop, st), it.deref(num, st)

    def f(x, y, k, ep):
        x, y, k = to_n(x), to_n(y), to_n(k)
        step = div(sub(y, x), sub(k, ONE)) if ep != FALSE else div(sub(y, x), k)
        return arith_prog(x, step, k)
    return lift(f, a, b, n, endpoint)


def arith_prog(start, step, n):
    """start + step*[0..n-1]"""
    return add(start, mul(step, of_atom(Atom('iota', (n,), integral=True, bnd=(Fraction(0), False, None, False)))))


@model('np.arange', 'tf.range', 'K.arange', sig='x y step dtype')
def m_arange(it, st, x, y=None, step=None, dtype=None):
    if y is None or y == NONE:
        x, y = num(0), x
    s = num(1) if step is None or step == NONE else step

    def f(a, b, c):
        a, b, c = to_n(a), to_n(b), to_n(c)
        return arith_prog(a, c, nceil(div(sub(b, a), c)))
    return lift(f, it.deref(x, st), it.deref(y, st), it.deref(s, st))


@model('np.empty', sig='shape dtype')
def m_empty(it, st, shape, dtype=None):
    return of_atom(Atom('empty', (it.freeze(shape, st),)))


@model('np.divmod', sig='x y')
def m_divmod(it, st, x, y):
    return b_divmod(it, st, [x, y], {})


# ------------------------------------------------------------------ tf variables, decorators
@model('tf.Variable', 'K.variable', sig='x trainable validate_shape caching_device name variable_def dtype')
def m_variable(it, st, x=NONE, trainable=TRUE, name=None, dtype=None, **kw):
    return None


def mk_variable(it, st, args, kw):
    b = bindsig('x trainable validate_shape caching_device name variable_def dtype', args, {k: v for k, v in kw.items() if k != 'name'}, {'initial_value': 'x', 'value': 'x'})
    v = it.deref(b.get('x', NONE), st)
    if seq_items(it, st, v) is not None:
        v = to_arr(it, st, v)
    if 'dtype' in b and not isinstance(v, Arr) and v != NONE:
        v = cast(it, st, v, b['dtype'])
    meta = {'trainable': b.get('trainable', TRUE)}
    s = shape_of(it, st, prep(v)) if isinstance(v, (N, Arr)) else None
    if s is not None and s.items:
        meta['shape'] = s
    nm = kw.get('name', NONE)
    return it.alloc(st, VarCell(prep(v), (nm.v if isinstance(nm, C) and isinstance(nm.v, str) else 'Variable') + ':0', meta))


Model.table['tf.Variable'] = (mk_variable, None)
Model.table['K.variable'] = (lambda it, st, a, k: mk_variable(it, st, a[:1], {**({'dtype': a[1]} if len(a) > 1 else {}), **k}), None)


def ident_decorator(it, st, args, kw):
    if args and isinstance(args[0], (Func, Bound, PyFn, Partial, StaticM, Cls, Ref, Prop, Ext)):
        return args[0]
    return PyFn('ident', lambda it2, s, a, k: a[0])


for _p in ('tf.function', 'functools.wraps', 'tf.autograph.experimental.do_not_convert', 'tf.custom_gradient_', 'abc.abstractmethod', 'typing.overload', 'tf.no_gradient_'):
    Model.table[_p] = (ident_decorator, None)


def m_wraps(it, st, args, kw):
    return PyFn('ident', lambda it2, s, a, k: a[0])


Model.table['functools.wraps'] = (m_wraps, None)


def m_property(it, st, args, kw):
    f = args[0]
    if isinstance(f, StaticM):
        f = f.fn
    return Prop(f)


Model.table['builtins.property'] = (m_property, None)
Model.table['abc.abstractproperty'] = (m_property, None)
Model.table['builtins.staticmethod'] = (lambda it, st, a, k: StaticM(a[0]), None)
Model.table['builtins.classmethod'] = (lambda it, st, a, k: ClassM(a[0]), None)


def m_lru(it, st, args, kw):
    def wrap(it2, s, a, k):
        f = a[0]
        if isinstance(f, Func):
            return f.with_(wrap=f.wrap + ('memo',))
        raise Undecided('memoised callable')
    if args and isinstance(args[0], Func):
        return wrap(it, st, args, kw)
    return PyFn('lru', wrap)


Model.table['functools.lru_cache'] = (m_lru, None)
Model.table['functools.cache'] = (m_lru, None)
Model.table['functools.cached_property'] = (lambda it, st, a, k: Prop(a[0], None, True), None)


def m_sd(method):
    def f(it, st, args, kw):
        fn = args[0]
        return it.alloc(st, DispCell(fn, (), method, getattr(fn, 'qual', '?')))
    return f


Model.table['functools.singledispatch'] = (m_sd(False), None)
Model.table['functools.singledispatchmethod'] = (m_sd(True), None)
Model.table['functools.partial'] = (lambda it, st, a, k: Partial(a[0], a[1:], k), None)


@model('functools.reduce')
def m_freduce(it, st, args, kw):
    f, seq = args[0], it.iterate(args[1], st)
    acc = args[2] if len(args) > 2 else None
    for x in seq:
        acc = x if acc is None else it.call(f, [acc, x], {}, st)
    return acc


def m_register_ser(it, st, args, kw):
    pkg = args[0] if args else kw.get('package', C('Custom'))
    name = args[1] if len(args) > 1 else kw.get('name', NONE)

    def deco(it2, s, a, k):
        if isinstance(a[0], Cls):
            it2.registered[a[0].info.qual] = (pkg.v if isinstance(pkg, C) else '?', name.v if isinstance(name, C) else None)
        return a[0]
    return PyFn('register', deco)


Model.table['keras.saving.register_keras_serializable'] = (m_register_ser, None)


@model('copy.copy', sig='x')
def m_copy(it, st, x):
    def f(v, s):
        if isinstance(v, Ref):
            c = s.heap[v.id]
            if isinstance(c, (ObjCell, ListCell, DictCell)):
                if isinstance(c, ObjCell):
                    nm = f'copy({c.name})' if c.name else None
                    return it.alloc(s, ObjCell(c.cls, c.attrs, nm, c.force, c.open))
                return it.alloc(s, c)
        return v
    return it.fork(x, st, f)


@model('copy.deepcopy', sig='x')
def m_deepcopy(it, st, x):
    memo = {}

    def go(v, s):
        if isinstance(v, Ref):
            if v.id in memo:
                return memo[v.id]
            c = s.heap[v.id]
            if isinstance(c, ListCell):
                r = memo[v.id] = it.alloc(s, c)
                s.heap[r.id] = ListCell([go(i, s) for i in c.items], c.kind)
                return r
            if isinstance(c, DictCell):
                r = memo[v.id] = it.alloc(s, c)
                s.heap[r.id] = DictCell([(k, go(i, s)) for k, i in c.kv], c.sym)
                return r
            if isinstance(c, ObjCell):
                r = memo[v.id] = it.alloc(s, c)
                s.heap[r.id] = ObjCell(c.cls, {k: go(i, s) for k, i in c.attrs.items()}, f'deepcopy({c.name})' if c.name else None, c.force, c.open)
                return r
            if isinstance(c, VarCell):
                r = memo[v.id] = it.alloc(s, c)
                return r
        if isinstance(v, Tup):
            return Tup([go(i, s) for i in v.items])
        if isinstance(v, Ite) and not is_cond(v):
            return it.fork(v, s, go)
        return v
    return go(x, st)


# keras helpers
for _p in ('keras.initializers.get', 'keras.regularizers.get', 'keras.constraints.get', 'keras.initializers.serialize', 'keras.regularizers.serialize', 'keras.constraints.serialize',
           'keras.saving.serialize_keras_object', 'keras.saving.deserialize_keras_object', 'keras.layers.serialize', 'keras.layers.deserialize'):
    Model.table[_p] = (lambda it, st, a, k: a[0] if a else next(iter(k.values())), None)


def m_act_get(it, st, args, kw):
    def f(x):
        if x == NONE:
            return Ext('keras.activations.linear')
        if isinstance(x, C) and isinstance(x.v, str):
            return Ext('keras.activations.' + x.v.lower())
        return x
    return apply(f, args[0] if args else kw['identifier'])


Model.table['keras.activations.get'] = (m_act_get, None)


def m_act_ser(it, st, args, kw):
    def f(x):
        if isinstance(x, Ext) and x.path.startswith('keras.activations.'):
            return C(x.path.rsplit('.', 1)[-1])
        return x
    return apply(f, args[0])


Model.table['keras.activations.serialize'] = (m_act_ser, None)


@model('keras.src.utils.tf_utils.validate_axis', sig='axis input_shape')
def m_valaxis(it, st, axis, input_shape):
    n = len(it.iterate(input_shape, st))
    ax = it.deref(axis, st)
    s = seq_items(it, st, ax)
    items = s if s is not None else (ax,)
    out = []
    for a in items:
        if not (isinstance(a, N) and a.const is not None):
            raise Undecided('symbolic axis')
        out.append(num(int(a.const) % n))
    return it.new_list(st, out)


@model('keras.src.utils.tf_utils.maybe_init_scope', sig='x')
def m_mis(it, st, x):
    return NONE


@model('keras.src.utils.conv_utils.convert_data_format', sig='data_format ndim')
def m_cdf(it, st, data_format, ndim):
    def f(d, n):
        if isinstance(d, C) and isinstance(n, N) and n.const is not None:
            n = int(n.const)
            m = {'channels_last': {3: 'NWC', 4: 'NHWC', 5: 'NDHWC'}, 'channels_first': {3: 'NCW', 4: 'NCHW', 5: 'NCDHW'}}
            return C(m[d.v][n])
        return of_atom(Atom('fn', ('convert_data_format', d, n)))
    return apply(f, it.deref(data_format, st), it.deref(ndim, st))


@model('K.image_data_format', sig='')
def m_idf(it, st):
    return C('channels_last')


for _p in ('keras.layers.Softmax_',):
    pass


# misc externals
def noop(it, st, a, k):
    return NONE


for _p in ('builtins.print', 'warnings.warn', 'np.errstate', 'np.seterr', 'warnings.catch_warnings', 'warnings.simplefilter', 'warnings.filterwarnings', 'logging.getLogger', 'logging.warning', 'logging.info', 'logging.debug'):
    Model.table[_p] = (noop, None)


def pieces(s):
    """literal and integer pieces of a formatted string (None if it has others)"""
    if isinstance(s, C) and isinstance(s.v, str):
        return [s.v]
    if isinstance(s, N) and s.atom is not None and s.atom.op == 'fstr':
        out = []
        for p in s.atom.args:
            if isinstance(p, C) and isinstance(p.v, str):
                out.append(p.v)
            elif isinstance(p, N) and p.const is None and integral(p) and not (p.atom is not None and p.atom.op in ('fstr', 'strm', 'group', 'str')):
                out.append(p)
            else:
                return None
        return out
    return None


def unpieces(it, st, ps):
    return concat_str(it, st, [C(p) if isinstance(p, str) else p for p in ps]) if ps else C('')


def cut(ps, texts, a, b):
    """pieces between text positions a and b; None if that splits a number"""
    out, pos = [], 0
    for p, t in zip(ps, texts):
        lo, hi = pos, pos + len(t)
        pos = hi
        if isinstance(p, str):
            x = t[max(a - lo, 0):max(b - lo, 0)]
            if x:
                out.append(x)
        elif a <= lo and hi <= b:
            out.append(p)
        elif hi <= a or b <= lo:
            continue
        else:
            return None
    return out


def regex_apply(it, st, kind, rx, s):
    """regular expression on a string of literals and integers: every integer is a run of digits, of any length, with or without minus"""
    import re
    ps = pieces(s)
    pat = rx.atom.args[0]
    if ps is None or not (isinstance(pat, C) and isinstance(pat.v, str)) or len(rx.atom.args) > 1:
        return of_atom(Atom('match', (kind, rx, s)))
    comp = re.compile(pat.v)
    ints = [i for i, p in enumerate(ps) if not isinstance(p, str)]

    def go(k, signs):
        if k < len(ints):
            p = ps[ints[k]]
            b = T.bounds(p)
            if b[0] is not None and b[0] >= 0:
                return go(k + 1, signs + [''])
            if b[2] is not None and b[2] < 0:
                return go(k + 1, signs + ['-'])
            return ite(T.gt0(neg(p)), go(k + 1, signs + ['-']), go(k + 1, signs + ['']))
        res = None
        for digits in ('7', '72', '718', '71828'):
            texts = [p if isinstance(p, str) else signs[ints.index(i)] + digits for i, p in enumerate(ps)]
            m = getattr(comp, kind)(''.join(texts))
            if m is None:
                r = (None,)
            else:
                g = []
                for n in range(comp.groups + 1):
                    a, b = m.span(n)
                    if a < 0:
                        g.append(None)
                        continue
                    c = cut(ps, texts, a, b)
                    if c is None:
                        raise Undecided('regular expression splits a number')
                    g.append(tuple(c))
                r = tuple(g)
            if res is not None and r != res:
                raise Undecided('regular expression depends on the number of digits')
            res = r
        if res == (None,):
            return NONE
        gs = Tup([NONE if g is None else unpieces(it, st, list(g)) for g in res])
        return of_atom(Atom('cmatch', (gs, DictV([(C(k), gs.items[i]) for k, i in comp.groupindex.items()]))))
    return go(0, [])


def cmatch_method(it, st, a, name, args):
    gs, names = a.args

    def one(x):
        if isinstance(x, C) and isinstance(x.v, str):
            return names.get(x)
        if isinstance(x, N) and x.const is not None:
            return gs.items[int(x.const)]
        raise Undecided('match group')
    if name == 'groups':
        return Tup(gs.items[1:])
    if name in ('group', '__getitem__'):
        if not args:
            return gs.items[0]
        return one(args[0]) if len(args) == 1 else Tup([one(x) for x in args])
    if name == 'groupdict':
        return names
    raise Undecided(f'match.{name}')


@model('re.compile')
def m_recompile(it, st, args, kw):
    return of_atom(Atom('regex', tuple(args)))


@model('re.match', 're.fullmatch', 're.search')
def m_rematch(it, st, args, kw):
    return None


def re_fn(kind):
    def h(it, st, args, kw):
        if len(args) > 2 or kw:
            raise Undecided('regular expression flags')
        rx = args[0] if isinstance(args[0], N) else of_atom(Atom('regex', (args[0],)))
        return apply(lambda s: regex_apply(it, st, kind, rx, s), it.deref(args[1], st))
    return h


for _k in ('match', 'fullmatch', 'search'):
    Model.table['re.' + _k] = (re_fn(_k), None)


# ------------------------------------------------------------------ python builtins
def bi(name):
    def deco(f):
        Model.table['builtins.' + name] = (f, None)
        return f
    return deco


@bi('len')
def b_len(it, st, args, kw):
    def f(x, s):
        if isinstance(x, Ref):
            c = s.heap[x.id]
            if isinstance(c, ListCell):
                return num(len(c.items))
            if isinstance(c, DictCell) and c.sym is None and not any(isinstance(v, Ite) and not is_cond(v) for _, v in c.kv):
                return num(len(c.kv))
            if isinstance(c, VarCell):
                return b_len(it, s, [c.val], {})
            if isinstance(c, ObjCell) and c.cls is not None:
                ow, m = c.cls.find('__len__')
                if m is not None:
                    return it.call(Bound(m, x), [], {}, s)
            if isinstance(c, Altern):
                return it.branch(c.cond, s, lambda z: _alt_len(it, x, c.a, z), lambda z: _alt_len(it, x, c.b, z))
            raise Undecided('len of container')
        if isinstance(x, (Tup, Arr)):
            return num(len(x.items))
        if isinstance(x, DictV):
            return num(len(x.kv))
        if isinstance(x, C) and isinstance(x.v, str):
            return num(len(x.v))
        if isinstance(x, N):
            sh = shape_of(it, s, x)
            if sh is not None and sh.items:
                return sh.items[0]
            if x.atom is not None and x.atom.op == 'shape':
                return of_atom(Atom('rank', (x.atom.args[0],), integral=True, bnd=(Fraction(0), False, None, False)))
            return of_atom(Atom('len', (x,), integral=True))
        raise Undecided('len')
    return it.fork(args[0], st, f)


def _alt_len(it, x, cell, st):
    st.heap[x.id] = cell
    return b_len(it, st, [x], {})


@bi('range')
def b_range(it, st, args, kw):
    vals = []
    args = [it.deref(a, st) for a in args]
    if any(isinstance(a, Ite) for a in args):
        r = apply(lambda *xs: Tup(_range(it, st, xs)), *args)
        return r
    return it.new_list(st, _range(it, st, args))


def _range(it, st, args):
    vals = []
    for a in args:
        a = to_n(a)
        if a.const is None or a.const.denominator != 1:
            raise Undecided(f'range over symbolic bound {a.key[:60]}')
        vals.append(int(a.const))
    r = range(*vals)
    if len(r) > 4096:
        raise Undecided('range too long')
    return [num(i) for i in r]


@bi('list')
def b_list(it, st, args, kw):
    if not args:
        return it.new_list(st, [])
    x = it.simp(args[0], st.pc)
    if isinstance(x, Ite):
        return it.fork(x, st, lambda y, s: b_list(it, s, [y], {}))
    if isinstance(x, Arr):
        return it.new_list(st, x.items)
    if isinstance(x, N):
        sh = shape_of(it, st, x)
        if x.atom is not None and sh is None:
            return x
    return it.new_list(st, it.iterate(x, st))


@bi('tuple')
def b_tuple(it, st, args, kw):
    if not args:
        return Tup(())
    x = it.simp(args[0], st.pc)
    if isinstance(x, Ite):
        return it.fork(x, st, lambda y, s: b_tuple(it, s, [y], {}))
    if isinstance(x, Arr):
        return Tup(x.items)
    if isinstance(x, N):
        sh = shape_of(it, st, x)
        if x.atom is not None and sh is None:
            return x
    return Tup(it.iterate(x, st))


@bi('set')
def b_set(it, st, args, kw):
    items = []
    for x in (it.iterate(args[0], st) if args else []):
        if x not in items:
            items.append(x)
    return it.new_list(st, items, 'set')


Model.table['builtins.frozenset'] = (b_set, None)
Model.table['collections.OrderedDict'] = (lambda it, st, a, k: b_dict(it, st, a, k), None)


@bi('dict')
def b_dict(it, st, args, kw):
    c = DictCell(())
    if args:
        x = args[0]
        if isinstance(x, Ref) and isinstance(st.heap[x.id], DictCell):
            c = st.heap[x.id]
        elif isinstance(x, DictV):
            c = DictCell(x.kv)
        else:
            for p in it.iterate(x, st):
                k, v = it.iterate(p, st)
                c = c.set(k, v)
    for k, v in kw.items():
        c = c.set(C(k), v)
    return it.alloc(st, c)


def type_list(it, st, t):
    t = it.simp(t, st.pc)
    s = seq_items(it, st, t)
    if s is not None:
        out = []
        for x in s:
            out += type_list(it, st, x)
        return out
    return [t]


NUMTYPES = {'int', 'float', 'complex', 'bool', 'np.ndarray', 'tf.Tensor', 'tf.Variable', 'np.integer', 'np.floating', 'np.int8', 'np.int32', 'np.int64', 'np.float32', 'np.float64', 'numbers.Number', 'np.number', 'np.generic', 'tf.TensorShape'}


def is_inst(it, st, v, t):
    """condition isinstance(v, t)"""
    if isinstance(t, C) and t.v is None:
        return C(v == NONE)
    tn = None
    if isinstance(t, Ext):
        tn = t.path[len('builtins.'):] if t.path.startswith('builtins.') else t.path
    dc = it.dispatch_class(v, st)
    if tn == 'object':
        return TRUE
    if hasattr(dc, 'mro'):
        if isinstance(t, Cls):
            return C(dc.issub(t.info))
        if isinstance(t, Ext):
            if tn in ('collections.abc.Callable', 'typing.Callable'):
                return C(dc.find('__call__')[1] is not None or dc.find('call')[1] is not None)
            if t.path in it._extcls:
                return C(dc.issub(it._extcls[t.path]))
            if any(getattr(c, 'external', False) for c in dc.mro) and tn not in ('str', 'list', 'tuple', 'dict', 'int', 'float'):
                return C(any(c.qual == t.path for c in dc.mro))
            return FALSE
        return FALSE
    if isinstance(v, C):
        if tn is None:
            return FALSE
        n = {'str': str, 'bool': bool, 'int': int, 'float': float}.get(tn)
        return C(n is not None and isinstance(v.v, n))
    if isinstance(v, Tup):
        return C(tn in ('tuple', 'collections.abc.Sized', 'collections.abc.Sequence', 'collections.abc.Iterable'))
    if isinstance(v, Ref):
        c = st.heap[v.id]
        if isinstance(c, ListCell):
            return C(tn == c.kind or tn in ('collections.abc.Sized', 'collections.abc.Iterable') or (tn == 'collections.abc.Sequence' and c.kind == 'list'))
        if isinstance(c, DictCell):
            return C(tn in ('dict', 'collections.abc.Mapping', 'collections.abc.Sized', 'collections.abc.Iterable'))
        if isinstance(c, VarCell):
            return C(tn in ('tf.Variable', 'tf.Tensor'))
    if isinstance(v, (Ext, Func, Bound, PyFn, Partial)):
        if tn in ('collections.abc.Callable', 'typing.Callable', 'types.FunctionType'):
            return TRUE
        return FALSE
    if isinstance(v, Cls):
        return C(tn in ('type', 'collections.abc.Callable', 'typing.Callable'))
    if isinstance(v, Arr):
        return C(tn in ('np.ndarray',))
    if isinstance(v, N):
        if v.const is not None:
            if tn == 'int':
                return C(v.const.denominator == 1)
            if tn == 'float':
                return C(v.const.denominator != 1)
            return C(tn in ('numbers.Number',))
        if isinstance(t, Cls):
            if v.atom is not None and v.atom.op in ('attr', 'call', 'ext', 'idx', 'app', 'undecided'):
                return cond_atom(Atom('isinstance', (v, t)))
            if v.atom is not None and v.atom.op == 'sym' and str(v.atom.args[0]).endswith('~'):
                return cond_atom(Atom('isinstance', (v, t)))
            return FALSE
        if tn in ('str', 'list', 'tuple', 'dict', 'set', 'NoneType'):
            if v.atom is not None and v.atom.op in ('fstr', 'str', 'strm', 'fmt'):
                return C(tn == 'str')
            if v.atom is not None and v.atom.op == 'attr' and isinstance(v.atom.args[0], V):
                return cond_atom(Atom('isinstance', (v, t)))
            if v.atom is not None and v.atom.op == 'sym' and str(v.atom.args[0]).endswith('~'):
                return cond_atom(Atom('isinstance', (v, t)))
            return FALSE
        return cond_atom(Atom('isinstance', (v, t)))
    if is_cond(v):
        return C(tn in ('bool', 'int'))
    raise Undecided('isinstance')


@bi('isinstance')
def b_isinstance(it, st, args, kw):
    ts = type_list(it, st, args[1])
    x = it.simp(args[0], st.pc)

    def f(v):
        r = FALSE
        for t in ts:
            r = cor(r, is_inst(it, st, v, t))
        return r
    if is_cond(x) and isinstance(x, Ite):
        return f(TRUE)
    return apply(f, x)


@bi('issubclass')
def b_issubclass(it, st, args, kw):
    ts = type_list(it, st, args[1])
    x = args[0]
    if isinstance(x, Cls):
        return C(any(isinstance(t, Cls) and x.info.issub(t.info) for t in ts))
    return cond_atom(Atom('issubclass', (x, Tup(ts))))


@bi('hasattr')
def b_hasattr(it, st, args, kw):
    def f(n, s):
        if not isinstance(n, C):
            raise Undecided('hasattr with symbolic name')
        return it.hasattr(args[0], n.v, s)
    return it.fork(args[1], st, f)


@bi('getattr')
def b_getattr(it, st, args, kw):
    o, n = args[0], args[1]
    d = args[2] if len(args) > 2 else None

    def f(nn, s):
        if not (isinstance(nn, C) and isinstance(nn.v, str)):
            return of_atom(Atom('getattr', (it.freeze(o, s), it.freeze(nn, s))))
        if d is None:
            return it.getattr(o, nn.v, s)
        c = it.decide(s, it.truth(it.hasattr(o, nn.v, s), s))
        return it.branch(c, s, lambda s2: it.getattr(o, nn.v, s2), lambda s2: d)
    return it.fork(n, st, f)


@bi('setattr')
def b_setattr(it, st, args, kw):
    if not isinstance(args[1], C):
        raise Undecided('setattr with symbolic name')
    it.setattr(args[0], args[1].v, args[2], st)
    return NONE


@bi('delattr')
def b_delattr(it, st, args, kw):
    it.delattr(args[0], args[1].v, st)
    return NONE


@bi('int')
def b_int(it, st, args, kw):
    if not args:
        return ZERO
    x = it.deref(args[0], st)

    def f(v):
        if isinstance(v, C) and isinstance(v.v, str):
            return num(int(v.v))
        ps = pieces(v) if isinstance(v, N) else None
        if ps is not None and len(ps) == 1 and isinstance(ps[0], N):
            return ps[0]
        if isinstance(v, N) and v.atom is not None and v.atom.op in ('group', 'strm', 'fstr', 'str'):
            return of_atom(Atom('int', (v,), integral=True))
        if isinstance(v, N) and v.atom is not None and v.atom.op == 'environ':
            return of_atom(Atom('int', (v,), integral=True))
        return ntrunc(to_n(v))
    return lift(f, x)


@bi('float')
def b_float(it, st, args, kw):
    if not args:
        return ZERO
    x = it.deref(args[0], st)

    def f(v):
        if isinstance(v, C) and isinstance(v.v, str):
            return num(float(v.v))
        return to_n(v)
    return lift(f, x)


@bi('bool')
def b_bool(it, st, args, kw):
    return it.truth(it.deref(args[0], st), st) if args else FALSE


@bi('str')
def b_str(it, st, args, kw):
    if not args:
        return C('')

    def f(v):
        if isinstance(v, C):
            return C(str(v.v))
        if isinstance(v, N) and v.const is not None and v.const.denominator == 1:
            return C(str(int(v.const)))
        if isstr(v):
            return v
        return of_atom(Atom('fstr', (it.freeze(v, st),)))
    return apply(f, it.deref(args[0], st))


Model.table['builtins.repr'] = (lambda it, st, a, k: of_atom(Atom('fstr', (C('repr'), it.freeze(a[0], st)))), None)


def fold(it, st, f, args, kw):
    if len(args) == 1:
        a = it.deref(args[0], st)
        if isinstance(a, N):
            raise Undecided('min/max/sum over symbolic iterable')
        items = list(a.items) if isinstance(a, Arr) else it.iterate(a, st)
    else:
        items = list(args)
    if 'key' in kw:
        raise Undecided('key function')
    if not items:
        if 'default' in kw:
            return kw['default']
        raise Undecided('empty sequence')
    r = it.deref(items[0], st)
    for x in items[1:]:
        r = num1(f)(r, it.deref(x, st))
    return r


Model.table['builtins.max'] = (lambda it, st, a, k: fold(it, st, nmax, a, k), None)
Model.table['builtins.min'] = (lambda it, st, a, k: fold(it, st, nmin, a, k), None)


@bi('sum')
def b_sum(it, st, args, kw):
    a = it.deref(args[0], st)
    start = args[1] if len(args) > 1 else kw.get('start', num(0))
    if isinstance(a, N):
        if a.atom is not None and a.atom.op in ('call', 'sym', 'idx', 'attr'):
            return add(to_n(start), of_atom(Atom('sumof', (a,), integral=a.atom.integral)))
        raise Undecided('sum over symbolic iterable')
    items = list(a.items) if isinstance(a, Arr) else it.iterate(a, st)
    r = start
    for x in items:
        r = binop(it, st, ast.Add(), it.deref(r, st), it.deref(x, st))
    return r


Model.table['builtins.abs'] = Model.table['np.abs']
Model.table['builtins.pow'] = (lambda it, st, a, k: binop(it, st, ast.Pow(), it.deref(a[0], st), it.deref(a[1], st)), None)


@bi('round')
def b_round(it, st, args, kw):
    if len(args) > 1:
        raise Undecided('round with digits')
    return num1(nround)(it.deref(args[0], st))


@bi('divmod')
def b_divmod(it, st, args, kw):
    a, b = it.deref(args[0], st), it.deref(args[1], st)
    return Tup((num1(nfloordiv)(a, b), num1(nfloormod)(a, b)))


@bi('any')
def b_any(it, st, args, kw):
    r = FALSE
    for x in it.iterate(args[0], st):
        r = cor(r, it.truth(it.deref(x, st), st))
    return r


@bi('all')
def b_all(it, st, args, kw):
    r = TRUE
    for x in it.iterate(args[0], st):
        r = cand(r, it.truth(it.deref(x, st), st))
    return r


@bi('zip')
def b_zip(it, st, args, kw):
    ls = [it.iterate(a, st) for a in args]
    n = min((len(l) for l in ls), default=0)
    return it.new_list(st, [Tup([l[i] for l in ls]) for i in range(n)])


@bi('enumerate')
def b_enum(it, st, args, kw):
    s = args[1] if len(args) > 1 else kw.get('start', num(0))
    return it.new_list(st, [Tup((add(num(i), s), x)) for i, x in enumerate(it.iterate(args[0], st))])


@bi('map')
def b_map(it, st, args, kw):
    ls = [it.iterate(a, st) for a in args[1:]]
    n = min(len(l) for l in ls)
    return it.new_list(st, [it.call(args[0], [l[i] for l in ls], {}, st) for i in range(n)])


@bi('filter')
def b_filter(it, st, args, kw):
    out = []
    for x in it.iterate(args[1], st):
        c = it.decide(st, it.truth(it.call(args[0], [x], {}, st) if args[0] != NONE else x, st))
        if c == TRUE:
            out.append(x)
        elif c != FALSE:
            raise Undecided('undecided filter')
    return it.new_list(st, out)


@bi('sorted')
def b_sorted(it, st, args, kw):
    items = it.iterate(args[0], st)
    if kw.get('key', NONE) != NONE:
        raise Undecided('sorted with key')
    if all(isinstance(x, N) and x.const is not None for x in items):
        items = sorted(items, key=lambda x: x.const, reverse=kw.get('reverse', FALSE) == TRUE)
    elif all(isinstance(x, C) and isinstance(x.v, str) for x in items):
        items = sorted(items, key=lambda x: x.v, reverse=kw.get('reverse', FALSE) == TRUE)
    elif len(items) > 1:
        raise Undecided('sorted over symbolic values')
    return it.new_list(st, items)


@bi('reversed')
def b_rev(it, st, args, kw):
    return it.new_list(st, list(reversed(it.iterate(args[0], st))))


@bi('iter')
def b_iter(it, st, args, kw):
    return it.new_list(st, it.iterate(args[0], st), 'iter')


@bi('next')
def b_next(it, st, args, kw):
    x = args[0]
    items = it.iterate(x, st)
    if not items:
        if len(args) > 1:
            return args[1]
        it.raise_(st, 'StopIteration')
    if isinstance(x, Ref):
        st.heap[x.id] = ListCell(items[1:], st.heap[x.id].kind)
    return items[0]


@bi('callable')
def b_callable(it, st, args, kw):
    x = args[0]
    if isinstance(x, (Func, Bound, Ext, Cls, PyFn, Partial, BoundSym)):
        return TRUE
    if isinstance(x, (C, Tup)):
        return FALSE
    if isinstance(x, Ref):
        c = st.heap[x.id]
        return C(isinstance(c, ObjCell) and c.cls is not None and (c.cls.find('__call__')[1] is not None))
    return cond_atom(Atom('callable', (x,)))


@bi('type')
def b_type(it, st, args, kw):
    if len(args) != 1:
        raise Undecided('type()')
    x = args[0]
    dc = it.dispatch_class(x, st)
    if hasattr(dc, 'mro'):
        return Cls(dc)
    return of_atom(Atom('type', (it.freeze(x, st),)))


@bi('object')
def b_object(it, st, args, kw):
    return of_atom(Atom('obj', ('object()', None)))


@bi('id')
def b_id(it, st, args, kw):
    x = args[0]
    return of_atom(Atom('id', (C(x.id) if isinstance(x, Ref) else x,)))


@bi('slice')
def b_slice(it, st, args, kw):
    a = list(args)
    if len(a) == 1:
        a = [NONE, a[0]]
    while len(a) < 3:
        a.append(NONE)
    return of_atom(Atom('slice', tuple(it.deref(x, st) for x in a)))


@bi('vars')
def b_vars(it, st, args, kw):
    return it.getattr(args[0], '__dict__', st)


for _e in ('ValueError', 'TypeError', 'RuntimeError', 'NotImplementedError', 'AssertionError', 'Exception', 'KeyError', 'AttributeError', 'ImportError'):
    Model.table['builtins.' + _e] = (lambda it, st, a, k, _e=_e: of_atom(Atom('exc', (_e,))), None)


@model('os.environ.get', 'os.getenv')
def m_env(it, st, args, kw):
    d = args[1] if len(args) > 1 else kw.get('default', NONE)
    if getattr(it, 'noenv', False):
        return d
    return of_atom(Atom('environ', (args[0], it.freeze(d, st))))


# ------------------------------------------------------------------ attributes of non-objects
METHODS = set('''astype numpy reshape any all max min sum mean prod item tolist copy flatten ravel squeeze transpose round clip
append extend insert pop index count remove sort reverse add discard update union difference issubset issuperset intersection get items keys values setdefault clear
upper lower replace split startswith endswith format join strip lstrip rstrip rsplit isdigit encode title capitalize partition rpartition zfill
assign assign_add assign_sub value read_value match groups group fullmatch search register var std dispatch setter getter repeat swapaxes fill nonzero cumsum argmax argmin set_shape is_integer bit_length'''.split())


def sym_attr(it, st, o, name, default=None):
    if isinstance(o, (N, Arr)):
        if name == 'shape':
            return shape_val(it, st, o)
        if name == 'ndim':
            return b_len(it, st, [shape_val(it, st, o)], {})
        if name == 'T':
            return m_transpose(it, st, o)
        if name == 'size':
            s = shape_of(it, st, o)
            if s is not None:
                return reduce_arr(it, st, 'rprod', Arr(s.items), None)
        if isinstance(o, N):
            v = it.get_ext(st, o.key, name)
            if v is not None:
                return v
            a = o.atom
            if a is not None and a.op == 'new':
                d = a.args[1]
                if name in METHODS or name not in [k.v for k, _ in d.kv]:
                    pass
                r = d.get(C(name))
                if r is not None:
                    return r
                return of_atom(Atom('attr', (o, name)))
            if a is not None and a.op in ('obj', 'sym', 'attr', 'call', 'idx', 'ext', 'app', 'item') and name not in METHODS:
                return of_atom(Atom('attr', (o, name)))
            if name == 'dtype':
                return of_atom(Atom('attr', (o, 'dtype')))
        if name in METHODS:
            return BoundSym(o, name)
        if isinstance(o, N):
            return of_atom(Atom('attr', (o, name)))
    if isinstance(o, C) and isinstance(o.v, str) and name in METHODS:
        return BoundSym(o, name)
    if isinstance(o, (Tup, DictV)) and name in METHODS:
        return BoundSym(o, name)
    if isinstance(o, C) and isinstance(o.v, bool) and name in ('astype', 'any', 'all', 'numpy', 'sum', 'shape'):
        return BoundSym(o, name) if name != 'shape' else Tup(())
    if isinstance(o, C):
        if default is not None:
            return default
        it.raise_(st, 'AttributeError')
    if is_cond(o):
        if name in METHODS:
            return BoundSym(o, name)
        if name == 'shape':
            return shape_val(it, st, ind(o))
    if isinstance(o, Tup) and name == 'shape':
        it.raise_(st, 'AttributeError')
    if isinstance(o, (StaticM, ClassM)):
        return it.getattr(o.fn, name, st)
    if isinstance(o, Arr) and name == 'dtype':
        return of_atom(Atom('attr', (T.sym('array@'), 'dtype')))
    raise Undecided(f'attribute {name} of {type(o).__name__}')


def sym_hasattr(it, st, o, name):
    if isinstance(o, C) or isinstance(o, Tup):
        return C(hasattr(o.v if isinstance(o, C) else (), name))
    if isinstance(o, Arr):
        return C(name in ('shape', 'dtype', 'astype'))
    if isinstance(o, N):
        if o.const is not None:
            return FALSE
        if name in ('shape', 'numpy', 'dtype'):
            if shape_of(it, st, o) is not None:
                return TRUE
            a = o.atom
            if a is not None and a.op == 'sym' and not isinstance(a.args[0], V):
                return FALSE if str(a.args[0]).endswith('#') else TRUE if str(a.args[0]).endswith('@') else cond_atom(Atom('hasattr', (o, name)))
            return TRUE if a is None or a.op not in ('attr', 'call') else cond_atom(Atom('hasattr', (o, name)))
        return cond_atom(Atom('hasattr', (o, name)))
    if isinstance(o, Ext):
        if o.path == 'keras.layers':
            return C(f'keras.layers.{name}' in it.stubs)
        return cond_atom(Atom('hasattr', (o, name)))
    if isinstance(o, (Func, Bound, Partial, PyFn)):
        return C(name in ('__name__', '__call__'))
    if isinstance(o, Mod):
        g = st.heap[it.mods[o.name].id]
        return C(name in g.vars)
    raise Undecided('hasattr')


def var_attr(it, st, o, c, name):
    if name == 'shape':
        if 'shape' in c.meta:
            return c.meta['shape']
        return shape_val(it, st, c.val)
    if name == 'name':
        return C(c.name) if c.name is not None else of_atom(Atom('attr', (of_atom(Atom('obj', (f'var{o.id}', None))), 'name')))
    if name == 'dtype':
        return of_atom(Atom('attr', (of_atom(Atom('obj', (c.name or f'var{o.id}', None))), 'dtype')))
    if name in ('trainable',):
        return c.meta.get('trainable', TRUE)
    if name in METHODS:
        return BoundSym(o, name)
    return sym_attr(it, st, it.deref(o, st), name)


# ------------------------------------------------------------------ methods
def call_symbolic(it, st, f, args, kw, node=None):
    a = f.atom
    if a is None:
        raise Undecided('call of a number')
    if a.op == 'undecided':
        raise Undecided(f'{a.args[0]}')
    ops = [it.freeze(it.deref(x, st), st) for x in args]
    kws = sorted((k, it.freeze(it.deref(v, st), st)) for k, v in kw.items())
    it.event(st, 'app', f, Tup(ops), DictV([(C(k), v) for k, v in kws]))
    vals = [prep(v) for v in ops + [v for _, v in kws]]

    def mk(*vs):
        return of_atom(Atom('app', (f,) + tuple(vs[:len(ops)]) + tuple((n, v) for (n, _), v in zip(kws, vs[len(ops):]))))
    return apply(mk, *vals) if vals else mk()


def call_method(it, st, o, name, args, kw, node=None):
    if isinstance(o, Ref):
        c = st.heap[o.id]
        if isinstance(c, VarCell):
            return var_method(it, st, o, c, name, args, kw)
        if isinstance(c, ListCell):
            return list_method(it, st, o, c, name, args, kw)
        if isinstance(c, DictCell):
            return dict_method(it, st, o, c, name, args, kw)
        if isinstance(c, DispCell):
            return disp_method(it, st, o, c, name, args, kw)
    if isinstance(o, Cls) and name == 'register':
        t = args[0]
        if isinstance(t, Cls):
            t.info.virtual_bases.append(o.info)
        return t
    if isinstance(o, Prop):
        if name == 'setter':
            return PyFn('setter', lambda it2, s, a, k: Prop(o.fget, a[0], o.memo))
        if name == 'getter':
            return PyFn('getter', lambda it2, s, a, k: Prop(a[0], o.fset, o.memo))
    if isinstance(o, (Func, PyFn, Bound)) and name in ('setter', 'getter'):
        raise Undecided('accessor')
    if isinstance(o, C) and isinstance(o.v, str) or isstr(o):
        return str_method(it, st, o, name, args, kw)
    if isinstance(o, Tup):
        return tup_method(it, st, o, name, args, kw)
    if isinstance(o, DictV):
        return dict_method(it, st, it.alloc(st, DictCell(o.kv)), DictCell(o.kv), name, args, kw)
    if isinstance(o, (N, Ite, Arr)) or is_cond(o):
        return num_method(it, st, o, name, args, kw, node)
    raise Undecided(f'method {name} of {type(o).__name__}')


def num_method(it, st, o, name, args, kw, node=None):
    if isinstance(o, N) and o.atom is not None:
        a = o.atom
        if a.op == 'regex' and name in ('match', 'fullmatch', 'search'):
            return apply(lambda s: regex_apply(it, st, name, o, s), it.deref(args[0], st))
        if a.op == 'cmatch':
            return cmatch_method(it, st, a, name, args)
        if a.op == 'match' and name == 'groups':
            n = regex_groups(a.args[1])
            return Tup([of_atom(Atom('group', (o, num(i + 1)))) for i in range(n)])
        if a.op == 'match' and name == 'group':
            if len(args) == 1:
                return of_atom(Atom('group', (o, args[0])))
            return Tup([of_atom(Atom('group', (o, x))) for x in args])
        if a.op in ('obj', 'new'):
            return call_symbolic(it, st, of_atom(Atom('attr', (o, name))), args, kw)
        if a.op in ('sym', 'attr', 'call', 'ext', 'app', 'group', 'strm') and name in ('upper', 'lower', 'replace', 'split', 'startswith', 'endswith', 'format', 'join', 'strip', 'rsplit', 'lstrip', 'rstrip'):
            return str_method(it, st, o, name, args, kw)
    if name in ('numpy', 'copy', 'value', 'read_value', 'tolist', 'item', 'is_integer_', 'set_shape'):
        if name == 'set_shape':
            return NONE
        return o
    if name == 'is_integer':
        return eq0(sub(to_n(o), nfloor(to_n(o))))
    if name == 'bit_length':
        x = to_n(o)
        if x.const is not None:
            return num(int(x.const).bit_length())
        b = T.bounds(x)
        if b[0] is not None and b[0] >= 1:
            return add(nfloor(T.log2(x)), ONE)
        return of_atom(Atom('fn', ('bit_length', x), integral=True))
    if name == 'astype':
        return cast(it, st, o, args[0] if args else kw.get('dtype'))
    if name in ('any', 'all', 'max', 'min', 'sum', 'mean', 'prod', 'var', 'std'):
        b = bindsig('axis', args[:1], kw)
        if len(args) > 1:
            raise Undecided('positional reduction arguments')
        return reduce_(it, st, 'r' + name, o, b.get('axis'), b.get('keepdims'))
    if name == 'reshape':
        sh = args[0] if len(args) == 1 else Tup(args)
        return m_reshape(it, st, o, sh)
    if name in ('flatten', 'ravel'):
        return m_reshape(it, st, o, Tup((num(-1),)))
    if name == 'transpose':
        return m_transpose(it, st, o, (args[0] if len(args) == 1 else Tup(args)) if args else None)
    if name == 'squeeze':
        return m_squeeze(it, st, o, args[0] if args else kw.get('axis', NONE))
    if name == 'clip':
        return m_clip(it, st, o, *args, **kw)
    if name == 'round' and not args:
        return num1(nround)(o)
    if isinstance(o, N) and o.atom is not None and o.atom.op in ('sym', 'attr', 'call', 'ext', 'app', 'idx', 'item'):
        return call_symbolic(it, st, of_atom(Atom('attr', (o, name))), args, kw)
    raise Undecided(f'method {name}')


def regex_groups(r: N):
    import re
    p = r.atom.args[0]
    if isinstance(p, C):
        return re.compile(p.v).groups
    raise Undecided('symbolic regular expression')


def var_method(it, st, o, c, name, args, kw):
    if name in ('numpy', 'value', 'read_value', 'copy'):
        return it.simp(c.val, st.pc)
    if name in ('assign', 'assign_add', 'assign_sub'):
        v = args[0] if args else kw.get('value', kw.get('delta'))
        v = it.deref(v, st)
        if seq_items(it, st, v) is not None:
            v = to_arr(it, st, v)
        v = prep(v)
        if name == 'assign_add':
            v = num1(add)(c.val, v)
        elif name == 'assign_sub':
            v = num1(sub)(c.val, v)
        cur = st.heap[o.id]
        m = dict(cur.meta)
        m['assigned'] = True
        if isinstance(v, N) and v.const is not None and isinstance(m.get('shape'), Tup):
            v = with_shape(it, v, m['shape'])
        st.heap[o.id] = VarCell(v, c.name, m)
        if c.meta.get('watch'):
            it.event(st, 'assign:' + str(c.name), v)
        return o
    return num_method(it, st, it.deref(o, st), name, args, kw)


def list_method(it, st, o, c, name, args, kw):
    items = list(c.items)

    def put(x):
        st.heap[o.id] = ListCell(x, c.kind)
    if name == 'append':
        put(items + [args[0]])
    elif name == 'extend':
        put(items + it.iterate(args[0], st))
    elif name == 'add':
        if args[0] not in items:
            if any(isinstance(x, N) and x.const is None for x in items + [args[0]]) and items and isinstance(args[0], N) and args[0].atom is not None and args[0].atom.op not in ('obj', 'new'):
                st.heap[o.id] = ListCell(items + [args[0]], c.kind)
            else:
                put(items + [args[0]])
    elif name == 'insert':
        i = args[0]
        if not (isinstance(i, N) and i.const is not None):
            raise Undecided('insert')
        items.insert(int(i.const), args[1])
        put(items)
    elif name == 'pop':
        i = int(args[0].const) if args else -1
        if not items:
            it.raise_(st, 'IndexError')
        r = items.pop(i)
        put(items)
        return r
    elif name in ('remove', 'discard'):
        if args[0] in items:
            items.remove(args[0])
            put(items)
        elif name == 'remove':
            raise Undecided('remove of unknown element')
    elif name == 'copy':
        return it.new_list(st, items, c.kind)
    elif name == 'clear':
        put([])
    elif name == 'reverse':
        put(items[::-1])
    elif name == 'index':
        if args[0] in items:
            return num(items.index(args[0]))
        raise Undecided('index')
    elif name == 'count':
        return num(items.count(args[0]))
    elif name == 'update' and c.kind == 'set':
        for a in args:
            for x in it.iterate(a, st):
                if x not in items:
                    items.append(x)
        put(items)
    elif name in ('union', 'difference', 'intersection', 'issubset', 'issuperset'):
        ys = [x for a in args for x in it.iterate(a, st)]
        if name == 'union':
            return it.new_list(st, items + [y for y in ys if y not in items], 'set')
        if name == 'difference':
            return it.new_list(st, [x for x in items if x not in ys], 'set')
        if name == 'intersection':
            return it.new_list(st, [x for x in items if x in ys], 'set')
        if name == 'issubset':
            return C(all(x in ys for x in items))
        return C(all(y in items for y in ys))
    elif name == 'sort':
        r = b_sorted(it, st, [o], kw)
        put(st.heap[r.id].items)
    elif name in ('astype',):
        return cast(it, st, o, args[0])
    else:
        raise Undecided(f'list method {name}')
    return NONE


def tup_method(it, st, o, name, args, kw):
    if name == 'index':
        if args[0] in o.items:
            return num(o.items.index(args[0]))
    if name == 'count':
        return num(o.items.count(args[0]))
    if name == 'as_list' or name == 'copy':
        return it.new_list(st, o.items)
    raise Undecided(f'tuple method {name}')


def dict_method(it, st, o, c, name, args, kw):
    if name == 'get':
        k = it.simp(args[0], st.pc)
        d = args[1] if len(args) > 1 else kw.get('default', NONE)

        def f(kk, s):
            present = contains(it, s, kk, o)
            return it.branch(present, s, lambda s2: get_sym(it, s2, o, kk), lambda s2: d)
        return it.fork(k, st, f)
    if name in ('keys', 'values', 'items'):
        if c.sym is not None:
            raise Undecided('iteration over an open dict')
        kv = [(k, it.simp(v, st.pc)) for k, v in c.kv]
        kv = [(k, v) for k, v in kv if v != UNDEF]
        if any(_mu(v) for _, v in kv):
            raise Undecided('iteration over a gated dict')
        if name == 'keys':
            return it.new_list(st, [k for k, _ in kv], 'set')
        if name == 'values':
            return it.new_list(st, [v for _, v in kv])
        return it.new_list(st, [Tup((k, v)) for k, v in kv])
    if name == 'copy':
        return it.alloc(st, c)
    if name == 'clear':
        st.heap[o.id] = DictCell(())
        return NONE
    if name == 'pop':
        k = args[0]
        present = contains(it, st, k, o)
        d = args[1] if len(args) > 1 else None

        def yes(s):
            v = it.getitem(o, k, s)
            cc = s.heap[o.id]
            if cc.sym is not None and k not in [a for a, _ in cc.kv]:
                s.heap[o.id] = cc.set(k, UNDEF)
            else:
                s.heap[o.id] = cc.rm(k)
            return v

        def no(s):
            if d is None:
                it.raise_(s, 'KeyError')
            return d
        return it.branch(present, st, yes, no)
    if name == 'setdefault':
        k = args[0]
        present = contains(it, st, k, o)

        def no(s):
            v = args[1] if len(args) > 1 else NONE
            it.setitem(o, k, v, s)
            return v
        return it.branch(present, st, lambda s: it.getitem(o, k, s), no)
    if name == 'update':
        cc = st.heap[o.id]
        if args:
            a = it.simp(args[0], st.pc)
            for k, v in it.dict_items(a, st):
                if _mu(v):
                    old = dict(cc.kv).get(k, UNDEF)
                    v = apply(lambda n, oo: oo if n == UNDEF else n, v, old)
                cc = cc.set(k, v)
        for k, v in kw.items():
            cc = cc.set(C(k), v)
        st.heap[o.id] = cc
        return NONE
    raise Undecided(f'dict method {name}')


def _mu(v):
    if v == UNDEF:
        return True
    return isinstance(v, Ite) and (_mu(v.h) or _mu(v.l))


def get_sym(it, st, o, k):
    c = st.heap[o.id]
    if isinstance(k, N) and k.const is None:
        r = None
        for a, b in c.kv:
            r = b if r is None else ite(equal(it, st, k, a), b, r)
        return r if r is not None else NONE
    return it.getitem(o, k, st)


def disp_method(it, st, o, c, name, args, kw):
    if name == 'register':
        def add_reg(types, fn, s):
            cc = s.heap[o.id]
            s.heap[o.id] = DispCell(cc.default, cc.reg + tuple((t, fn) for t in types), cc.method, cc.qual)
            return fn
        if len(args) == 2 or 'func' in kw:
            return add_reg(type_list(it, st, args[0]), args[1] if len(args) > 1 else kw['func'], st)
        a = args[0] if args else kw.get('cls')
        if isinstance(a, (Cls, Ext, Tup)):
            types = type_list(it, st, a)
            return PyFn('register', lambda it2, s, aa, k: add_reg(types, aa[0], s))
        if isinstance(a, Func):
            i = 1 if c.method else 0
            an = (a.node.args.posonlyargs + a.node.args.args)[i].annotation
            if an is None:
                raise Undecided('register without annotation')
            mfr = it.mods[a.mod]
            if isinstance(an, ast.Constant) and isinstance(an.value, str):
                an = ast.parse(an.value, mode='eval').body
            t = it.eval(an, st, mfr)
            return add_reg(type_list(it, st, t), a, st)
        raise Undecided('register')
    if name == 'dispatch':
        t = args[0]
        if isinstance(t, Cls):
            best, rank = None, None
            order = {k: n for n, k in enumerate(t.info.mro)}
            for typ, fn in c.reg:
                ti = typ.info if isinstance(typ, Cls) else None
                if ti in order and (rank is None or order[ti] <= rank):
                    best, rank = fn, order[ti]
            return best or c.default
    raise Undecided(f'singledispatch.{name}')


def str_method(it, st, o, name, args, kw):
    args = [it.deref(a, st) for a in args]

    def f(s, *a):
        if isinstance(s, C) and isinstance(s.v, str):
            if name == 'join':
                items = it.iterate(a[0], st)
                parts = []
                for i, x in enumerate(items):
                    if i:
                        parts.append(s)
                    parts.append(x)
                return concat_str(it, st, parts) if parts else C('')
            if name == 'format':
                return fmt(it, st, s.v, a, kw)
            vals = []
            for x in a:
                if isinstance(x, C):
                    vals.append(x.v)
                elif isinstance(x, N) and x.const is not None:
                    vals.append(int(x.const))
                elif isinstance(x, Tup) and all(isinstance(y, C) for y in x.items):
                    vals.append(tuple(y.v for y in x.items))
                else:
                    return of_atom(Atom('strm', (name, s) + tuple(it.freeze(z, st) for z in a)))
            r = getattr(s.v, name)(*vals)
            if isinstance(r, bool):
                return C(r)
            if isinstance(r, str):
                return C(r)
            if isinstance(r, (list, tuple)):
                items = [C(x) for x in r]
                return it.new_list(st, items) if isinstance(r, list) else Tup(items)
            if isinstance(r, int):
                return num(r)
            raise Undecided('str method')
        r = fstr_method(it, st, s, name, a)
        if r is not None:
            return r
        if name in ('endswith', 'startswith'):
            return cond_atom(Atom('strm', (name, s) + tuple(it.freeze(z, st) for z in a)))
        if name in ('upper', 'lower') and isinstance(s, N) and s.atom is not None and s.atom.op == 'strm' and s.atom.args[0] in ('upper', 'lower'):
            s = s.atom.args[1]
        return of_atom(Atom('strm', (name, s) + tuple(it.freeze(z, st) for z in a)))
    if any(isinstance(a, Ref) for a in args):
        return f(o, *args)
    return apply(f, o, *args)


def fstr_method(it, st, s, name, a):
    """string methods that only look at the literal parts of a formatted string"""
    ps = pieces(s)
    if ps is None or all(isinstance(p, str) for p in ps):
        return None
    vals = []
    for x in a:
        if isinstance(x, C) and isinstance(x.v, (str, type(None))):
            if isinstance(x.v, str) and any(ch.isdigit() or ch in '+-_' for ch in x.v):
                raise Undecided('text method on the digits of a number')
            vals.append(x.v)
        elif isinstance(x, N) and x.const is not None and name in ('split', 'rsplit'):
            vals.append(int(x.const))
        else:
            return None
    if name not in ('split', 'rsplit', 'strip', 'lstrip', 'rstrip', 'startswith', 'endswith', 'replace', 'partition', 'rpartition', 'upper', 'lower', 'removeprefix', 'removesuffix', '__contains__'):
        return None
    text = ''.join(p if isinstance(p, str) else chr(0xE000 + i) for i, p in enumerate(ps))

    def back(t):
        out, lit = [], ''
        for ch in t:
            if 0xE000 <= ord(ch) < 0xF000:
                if lit:
                    out.append(lit)
                lit = ''
                out.append(ps[ord(ch) - 0xE000])
            else:
                lit += ch
        return unpieces(it, st, out + ([lit] if lit else []))
    r = getattr(text, name)(*vals)
    if isinstance(r, bool):
        return C(r)
    if isinstance(r, str):
        return back(r)
    if isinstance(r, list):
        return it.new_list(st, [back(x) for x in r])
    return Tup([back(x) for x in r])


def fmt(it, st, s, a, kw):
    import string
    parts, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit:
            parts.append(C(lit))
        if field is None:
            continue
        if spec or conv:
            raise Undecided('format spec')
        if field == '':
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field in kw:
            v = kw[field]
        else:
            raise Undecided('format field')
        parts.append(v)
    return concat_str(it, st, parts)
