"""Random interpretation of canonical terms (Gulwani & Necula, POPL'04 style).

Used only to classify a *mismatch* of two canonical terms: a mismatch counts as a
violation only if some valuation of the terms' atoms separates them; a mismatch
no valuation separates is "not decided" (so an algebraic identity the normal
form does not know cannot raise an alarm).  Nothing of the analysed program is
executed: only terms extracted from its syntax tree are interpreted.
"""
from __future__ import annotations

import hashlib
import math
from fractions import Fraction

from .terms import C, DictV, Ite, N, Tup, V, Atom, walk


class Skip(Exception):
    """valuation not usable (undefined arithmetic, precision loss, path condition false)"""


OPAQUE_BAD = {'ext', 'undecided', 'memo'}


def unmodelled_in(*vs):
    out = set()
    for v in vs:
        for x in walk(v):
            if isinstance(x, Atom) and x.op in OPAQUE_BAD:
                out.add(x.key[:120])
    return out


def _h(seed, s):
    return int.from_bytes(hashlib.blake2b(f'{seed}|{s}'.encode(), digest_size=8).digest(), 'big')


POOLS = [
    [Fraction(n, 4) for n in range(-12, 13)],
    [Fraction(n, 2) for n in range(-9, 10)],
    [Fraction(n) for n in range(-4, 5)],
    [Fraction(n) for n in range(-40, 41)],
    [Fraction(n, 8) for n in range(-64, 65)],
    [Fraction(n, 16) + 100 for n in range(-64, 65)],
    [Fraction(n * 1000 + 7, 4) for n in range(-20, 21)],
    [Fraction(0), Fraction(1), Fraction(-1)],
]


class Valuation:
    def __init__(self, seed):
        self.seed = seed
        self.pool = POOLS[seed % len(POOLS)]
        self.memo = {}

    # ---- leaves
    def sample(self, key, integral=False, bit=False, bnd=None):
        r = _h(self.seed, key)
        if bit:
            return Fraction(r & 1)
        pool = self.pool if (r >> 40) % 4 else POOLS[(r >> 20) % len(POOLS)]
        x = pool[r % len(pool)]
        if integral:
            x = Fraction(math.floor(x))
        if bnd is not None:
            lo, los, hi, his = bnd
            step = Fraction(1) if integral else Fraction(1, 8)
            if lo is not None and (x < lo or (los and x == lo)):
                x = lo + (step if los else 0) + (r >> 8) % 5 * step
            if hi is not None and (x > hi or (his and x == hi)):
                x = hi - (step if his else 0) - (r >> 8) % 5 * step
                if lo is not None and (x < lo or (los and x == lo)):
                    if his and los and hi - lo <= step:
                        x = (lo + hi) / 2
                    else:
                        x = lo + (step if los else 0)
                        if his and x >= hi:
                            x = (lo + hi) / 2
        return x

    # ---- terms
    def term(self, v):
        k = v.key
        if k in self.memo:
            return self.memo[k]
        r = self._term(v)
        self.memo[k] = r
        return r

    def _term(self, v):
        if isinstance(v, N):
            tot = Fraction(0)
            for m, c in v.p.items():
                t = c
                for a, e in m:
                    x = self.atom(a)
                    if not isinstance(x, (Fraction, float)):
                        # non numeric atom: only meaningful on its own
                        if len(v.p) == 1 and len(m) == 1 and e == 1 and c == 1:
                            return x
                        raise Skip()
                    if e < 0 and x == 0:
                        raise Skip()
                    t = _mul(t, _pow(x, e))
                tot = _add(tot, t)
            return tot
        if isinstance(v, Ite):
            return self.term(v.h) if self.cond(v.a) else self.term(v.l)
        if isinstance(v, Tup):
            return ('tup',) + tuple(self.term(x) for x in v.items)
        if isinstance(v, DictV):
            return ('dict',) + tuple(sorted(((repr(self.term(a)), self.term(b)) for a, b in v.kv), key=lambda t: t[0]))
        if isinstance(v, C):
            if isinstance(v.v, bool):
                return Fraction(int(v.v)) if False else ('c', v.key)
            return ('c', v.key)
        if type(v).__name__ == 'Arr':
            return ('tup',) + tuple(self.term(x) for x in v.items)
        if isinstance(v, Atom):
            return self.atom(v)
        return ('k', v.key)

    def arg(self, x):
        if isinstance(x, tuple):
            return tuple(self.arg(y) for y in x)
        if isinstance(x, V):
            return self.term(x) if not isinstance(x, Atom) else ('a', self.condval(x))
        return ('p', str(x))

    def condval(self, a):
        return self.cond(a)

    def cond(self, a: Atom):
        k = '?' + a.key
        if k in self.memo:
            return self.memo[k]
        if a.op == 'gt0':
            r = _num(self.term(a.args[0]))
            _exact(r)
            r = r > 0
        elif a.op == 'eq0':
            x = self.term(a.args[0])
            if isinstance(x, tuple):
                r = False
            else:
                _exact(x)
                r = x == 0
        elif a.op == 'eq':
            p, q = self.term(a.args[0]), self.term(a.args[1])
            if isinstance(p, tuple) != isinstance(q, tuple):
                r = bool(_h(self.seed, k) % 2)
            else:
                r = _canon(p) == _canon(q)
                if not r and isinstance(p, tuple):
                    pass
        elif a.op == 'isinf':
            x = _num(self.term(a.args[0]))
            r = isinstance(x, float) and math.isinf(x)
        elif a.op == 'isnan':
            r = False
        else:
            try:
                s = a.op + repr([_canon(self.arg(x)) for x in a.args])
            except Skip:
                s = a.key
            r = bool(_h(self.seed, s) >> 5 & 1)
        self.memo[k] = r
        return r

    def atom(self, a: Atom):
        k = '!' + a.key
        if k in self.memo:
            return self.memo[k]
        r = self._atom(a)
        self.memo[k] = r
        return r

    def _atom(self, a):
        op = a.op
        if op == 'sym':
            return self.sample(a.key, a.integral, a.bit, a.bnd)
        if op == 'inf':
            return math.inf
        if op == 'nan':
            raise Skip()
        if op == 'ln2':
            return math.log(2)
        if op == 'pi':
            return math.pi
        if op == 'ind':
            return Fraction(int(self.cond(a.args[0])))
        f = NUM.get(op)
        if f is not None:
            return f(*[_num(self.term(x)) for x in a.args])
        if op == 'sg':
            return self.term(a.args[0])
        if op in ('rmax', 'rmin', 'rsum', 'rmean', 'expand', 'squeeze', 'reshape', 'transpose', 'bcast') and False:
            pass
        s = op + repr([_canon(self.arg(x)) for x in a.args])
        if op in ('obj', 'attr', 'item', 'strm', 'fstr', 'group', 'match', 'regex', 'new', 'type', 'exc', 'fmt', 'id') and not a.integral:
            if op in ('new', 'obj', 'type', 'exc', 'fstr', 'fmt', 'strm', 'regex', 'match'):
                return ('o', s)
        return self.sample(s, a.integral, a.bit, a.bnd)


def _num(x):
    if isinstance(x, (Fraction, float)):
        return x
    if isinstance(x, tuple) and x[0] == 'c' and x[1] in ('True', 'False'):
        return Fraction(int(x[1] == 'True'))
    raise Skip()


def _canon(x):
    if isinstance(x, float):
        if math.isinf(x):
            return repr(x)
        f = Fraction(x).limit_denominator(1 << 40)
        return f'{float(x):.9g}' if f.denominator > 4096 else str(f)
    if isinstance(x, Fraction):
        return str(x) if x.denominator <= 4096 else f'{float(x):.9g}'
    if isinstance(x, tuple):
        return tuple(_canon(y) for y in x)
    return x


def _exact(x):
    """comparisons on inexact floats close to the threshold are not trusted"""
    if isinstance(x, float) and not math.isinf(x) and x != 0 and abs(x) < 1e-7:
        raise Skip()
    return x


def _chk(x):
    if isinstance(x, float):
        if x != x:
            raise Skip()
    elif abs(x.numerator) > 1 << 400 or x.denominator > 1 << 400:
        raise Skip()
    return x


def _add(a, b):
    return _chk(a + b)


def _mul(a, b):
    if isinstance(a, float) != isinstance(b, float):
        if a == 0 or b == 0:
            if (isinstance(a, float) and math.isinf(a)) or (isinstance(b, float) and math.isinf(b)):
                raise Skip()
            return Fraction(0)
    try:
        return _chk(a * b)
    except OverflowError:
        raise Skip()


def _pow(x, e):
    if isinstance(x, float) and math.isinf(x) and e < 0:
        return Fraction(0)
    try:
        return _chk(x ** e)
    except (OverflowError, ZeroDivisionError):
        raise Skip()


def _floor(x):
    if isinstance(x, float):
        if math.isinf(x):
            return x
        if abs(x - round(x)) < 1e-6:
            if abs(x - round(x)) < 1e-12:
                return Fraction(round(x)) if abs(x) < 1e12 else _bad()
            raise Skip()
        return Fraction(math.floor(x))
    return Fraction(math.floor(x))


def _bad():
    raise Skip()


def _round(x):
    if isinstance(x, float):
        if math.isinf(x):
            return x
        if abs(x - math.floor(x) - 0.5) < 1e-6:
            raise Skip()
    return Fraction(round(x))


def _trunc(x):
    if isinstance(x, float) and math.isinf(x):
        raise Skip()
    return _floor(x) if x >= 0 else -_floor(-x)


def _pow2(e):
    if isinstance(e, float):
        if math.isinf(e):
            return math.inf if e > 0 else Fraction(0)
        if e == int(e) and abs(e) < 300:
            return Fraction(2) ** int(e)
        if abs(e) > 300:
            raise Skip()
        return 2.0 ** e
    if abs(e) > 300:
        raise Skip()
    if e.denominator == 1:
        return Fraction(2) ** int(e)
    return 2.0 ** float(e)


def _log2(x):
    if x < 0:
        raise Skip()
    if x == 0:
        return -math.inf
    if isinstance(x, float):
        return math.log2(x)
    n, d = x.numerator, x.denominator
    if n & (n - 1) == 0 and d & (d - 1) == 0:
        return Fraction(n.bit_length() - d.bit_length())
    return math.log2(n) - math.log2(d)


def _log(x):
    r = _log2(x)
    return r if isinstance(r, float) and math.isinf(r) else (Fraction(0) if r == 0 else float(r) * math.log(2))


def _sqrt(x):
    if x < 0:
        raise Skip()
    return math.sqrt(x) if x else Fraction(0)


def _inv(x):
    if x == 0:
        raise Skip()
    if isinstance(x, float) and math.isinf(x):
        return Fraction(0)
    return _chk(1 / x)


def _powf(x, y):
    try:
        if isinstance(y, Fraction) and y.denominator == 1 and abs(y) < 300:
            if x == 0 and y < 0:
                raise Skip()
            return _chk(x ** int(y))
        if x <= 0:
            raise Skip()
        return float(x) ** float(y)
    except OverflowError:
        raise Skip()


def _tz(x):
    if isinstance(x, float) or x.denominator != 1 or x == 0:
        raise Skip()
    n = abs(int(x))
    return Fraction((n & -n).bit_length() - 1)


NUM = {'tz': _tz, 'newax': lambda x: x, 'floor': _floor, 'round': _round, 'trunc': _trunc, 'relu': lambda x: x if x > 0 else Fraction(0), 'pow2': _pow2, 'log2': _log2,
       'log': _log, 'sqrt': _sqrt, 'inv': _inv, 'pow': _powf, 'sign': lambda x: Fraction((x > 0) - (x < 0))}


def _same(a, b):
    if isinstance(a, (Fraction, float)) and isinstance(b, (Fraction, float)):
        if a == b:
            return True
        if isinstance(a, float) or isinstance(b, float):
            if math.isinf(a) or math.isinf(b):
                return False
            return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    # booleans compare equal to 0/1
    if isinstance(a, tuple) != isinstance(b, tuple):
        try:
            return _same(_num(a), _num(b))
        except Skip:
            return False
    return a == b


def separate(a, b, pc=None, tries=1500):
    """a separating valuation {atom: value} or None; (witness, #usable valuations)"""
    usable = 0
    for seed in range(tries):
        val = Valuation(seed)
        try:
            if pc is not None and isinstance(pc, Ite):
                t = val.term(pc)
                if t != ('c', 'True'):
                    continue
            x, y = val.term(a), val.term(b)
        except (Skip, OverflowError, RecursionError):
            continue
        usable += 1
        if not _same(x, y):
            leaves = {k[1:]: str(_canon(v)) for k, v in sorted(val.memo.items()) if k[0] == '!' and '(' not in k}
            return {'valuation': dict(list(leaves.items())[:20]), 'got': str(_canon(x))[:300], 'want': str(_canon(y))[:300]}, usable
    return None, usable
