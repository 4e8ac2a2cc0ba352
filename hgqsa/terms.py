"""Canonical value domain of the analysis.

Every abstract value is an immutable, canonically keyed term:

  C      non numeric constant (None, bool, str, ...)
  N      numeric value: multivariate (Laurent) polynomial with rational
         coefficients over *atoms* (uninterpreted, but normalised operators)
  Ite    gate of a gated-SSA join: ordered decision node over a condition atom
  Tup    immutable sequence,   DictV  immutable mapping
  Ref    reference to an abstract heap cell
  ...    callables / classes / modules (see program.py)

Two program fragments that compute the same value through different
statements (renamed temporaries, extracted helpers, reordered independent
statements, if/else vs. early return, where() vs. mask, ...) obtain the same
key, which is what every rule of the analyser is stated over.  No solver and no
concrete evaluation of program inputs is involved.
"""
from __future__ import annotations

import time
from fractions import Fraction


class OverBudget(Exception):
    """the terms of one obligation grow beyond what is reasonable: it stays undecided"""


_budget = [None, 0]


def tick():
    _budget[1] += 1
    if _budget[1] & 1023 == 0 and _budget[0] is not None and time.monotonic() > _budget[0]:
        raise OverBudget('analysis budget exceeded')


def set_deadline(t):
    old = _budget[0]
    _budget[0] = t
    return old


class V:
    __slots__ = ('key',)

    def __eq__(self, o):
        return isinstance(o, V) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return self.key


class _Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF_OBJ = _Undef()


class C(V):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v
        self.key = repr(v)


NONE, TRUE, FALSE, UNDEF = C(None), C(True), C(False), C(UNDEF_OBJ)


class Atom(V):
    """Uninterpreted operator application; argument of polynomials and conditions."""
    __slots__ = ('op', 'args', 'integral', 'bit', 'bnd')

    def __init__(self, op, args=(), integral=False, bit=False, bnd=None):
        self.op, self.args = op, tuple(args)
        self.integral, self.bit, self.bnd = integral, bit, bnd
        if op == 'sym':
            self.key = str(args[0])
        elif op == 'attr':
            self.key = f'{akey(args[0])}.{args[1]}'
        else:
            self.key = op + '(' + ', '.join(akey(a) for a in self.args) + ')'


def akey(a):
    if isinstance(a, V):
        return a.key
    if isinstance(a, tuple):
        return '(' + ', '.join(akey(x) for x in a) + ')'
    return str(a)


# ----------------------------------------------------------------- numbers
INF = float('inf')


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    return Fraction(repr(x)) if isinstance(x, float) else Fraction(x)


def _mono_key(m):
    return '*'.join(a.key if e == 1 else f'{a.key}^{e}' for a, e in m)


class N(V):
    __slots__ = ('p', 'sh')

    def __init__(self, p: dict):
        self.p = p
        self.sh = None          # shape of constant-filled tensors (not part of the value)
        if not p:
            self.key = '0'
            return
        parts = []
        for m in sorted(p, key=_mono_key):
            c = p[m]
            if not m:
                parts.append(str(c))
            elif c == 1:
                parts.append(_mono_key(m))
            elif c == -1:
                parts.append('-' + _mono_key(m))
            else:
                parts.append(f'{c}*{_mono_key(m)}')
        self.key = parts[0] if len(parts) == 1 else '(' + ' + '.join(parts) + ')'

    @property
    def const(self):
        """Fraction if constant, else None."""
        if not self.p:
            return Fraction(0)
        if len(self.p) == 1 and () in self.p:
            return self.p[()]
        return None

    @property
    def atom(self):
        """the single atom if the value is exactly one atom, else None"""
        if len(self.p) == 1:
            (m, c), = self.p.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None


def num(x) -> N:
    if isinstance(x, N):
        return x
    if isinstance(x, float):
        if x != x:
            return of_atom(Atom('nan'))
        if x == INF:
            return of_atom(Atom('inf'))
        if x == -INF:
            return neg(of_atom(Atom('inf')))
    f = frac(x)
    return N({(): f} if f else {})


def of_atom(a: Atom) -> N:
    return N({((a, 1),): Fraction(1)})


def sym(name, integral=False, bit=False, lo=None, hi=None, los=False, his=False) -> N:
    """Symbolic input.  lo/hi with strictness flags are declared bounds."""
    b = None
    if bit:
        integral, b = True, (Fraction(0), False, Fraction(1), False)
    elif lo is not None or hi is not None:
        b = (None if lo is None else frac(lo), los, None if hi is None else frac(hi), his)
    return of_atom(Atom('sym', (name,), integral, bit, b))


ZERO, ONE = num(0), num(1)


def _acc(p, m, c):
    if c == 0:
        return
    r = p.get(m, 0) + c
    if r == 0:
        p.pop(m, None)
    else:
        p[m] = r


def add(*xs) -> N:
    p = {}
    for x in xs:
        for m, c in x.p.items():
            _acc(p, m, c)
    return N(p)


def neg(x) -> N:
    return N({m: -c for m, c in x.p.items()})


def sub(a, b) -> N:
    return add(a, neg(b))


def scale(x, c) -> N:
    c = frac(c)
    return N({m: k * c for m, k in x.p.items()}) if c else ZERO


LN2 = Atom('ln2')


def mul(a: N, b: N) -> N:
    tick()
    p = {}
    for m1, c1 in a.p.items():
        for m2, c2 in b.p.items():
            r = _mono_mul(m1, m2)
            c = c1 * c2
            for m, k in r.p.items():
                _acc(p, m, k * c)
    return N(p)


_mm_cache = {}


def _mono_mul(m1, m2) -> N:
    if not m1:
        return N({m2: Fraction(1)})
    if not m2:
        return N({m1: Fraction(1)})
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    return _norm_mono(d)


def _norm_mono(d) -> N:
    """Build the polynomial for the product prod a^e, applying operator identities."""
    p2 = None
    extra = None
    out = {}
    inds = []
    for a, e in d.items():
        if e == 0:
            continue
        if a.op == 'pow2':
            t = scale(a.args[0], e)
            p2 = t if p2 is None else add(p2, t)
            continue
        if a.op == 'sqrt' and abs(e) >= 2:
            n = int(e / 2)
            t = npow(a.args[0], n)
            extra = t if extra is None else mul(extra, t)
            if e - 2 * n:
                out[a] = e - 2 * n
            continue
        if a.bit and e > 1:
            e = 1
        if a.op == 'ind' and e >= 1:
            e = 1
            inds.append(a)
        out[a] = e
    # contradictory indicators
    if len(inds) > 1:
        for i in range(len(inds)):
            for j in range(len(inds)):
                if i != j and inds[j] in out and inds[i] in out:
                    r = implied(inds[i].args[0], True, inds[j].args[0])
                    if r is False:
                        return ZERO
                    if r is True:
                        out.pop(inds[j])
    # ind(c*a > 0) * a  ->  a   for a >= 0
    for i in inds:
        if i in out and i.args[0].op == 'gt0':
            q = i.args[0].args[0]
            if len(q.p) == 1:
                (qm, qc), = q.p.items()
                if qc > 0 and len(qm) == 1 and qm[0][1] == 1 and out.get(qm[0][0], 0) >= 1:
                    lo = bounds(of_atom(qm[0][0]))[0]
                    if lo is not None and lo >= 0:
                        out.pop(i)
    # log(u) / ln 2  ->  log2(u)
    if out.get(LN2, 0) < 0:
        for a in list(out):
            if a.op == 'log' and out[a] > 0 and out.get(LN2, 0) < 0:
                n = min(out[a], -out[LN2])
                out[a] -= n
                out[LN2] += n
                l2 = log2(a.args[0])
                t = npow(l2, n)
                extra = t if extra is None else mul(extra, t)
        out = {a: e for a, e in out.items() if e}
    m = tuple(sorted(out.items(), key=lambda t: t[0].key))
    r = N({m: Fraction(1)})
    if p2 is not None:
        q = pow2(p2)
        # multiply without re-entering pow2 merge
        pp = {}
        for m2, c2 in q.p.items():
            mm = tuple(sorted(m + m2, key=lambda t: t[0].key)) if m2 else m
            # bits coming from pow2 expansion may repeat
            dd = {}
            for a, e in mm:
                dd[a] = dd.get(a, 0) + e
            for a in dd:
                if a.bit and dd[a] > 1:
                    dd[a] = 1
            mm = tuple(sorted(((a, e) for a, e in dd.items() if e), key=lambda t: t[0].key))
            _acc(pp, mm, c2)
        r = N(pp)
    if extra is not None:
        r = mul(r, extra)
    return r


def npow(x: N, n: int) -> N:
    if n == 0:
        return ONE
    if n < 0:
        return npow(inv(x), -n)
    r = x
    for _ in range(n - 1):
        r = mul(r, x)
    return r


def lead(x: N):
    m = min(x.p, key=lambda m: (len(m) == 0, _mono_key(m)))
    return x.p[m]


def inv(x: N) -> N:
    if not x.p:
        return of_atom(Atom('inf'))
    if len(x.p) == 1:
        (m, c), = x.p.items()
        d = {}
        for a, e in m:
            d[a] = -e
        return scale(_norm_mono(d), 1 / c)
    # sums: factor common power of two and leading coefficient
    f = _common_pow2(x)
    c = lead(x)
    y = scale(x, 1 / c)
    if f is not None:
        y = mul(y, pow2(neg(f)))
        c2 = lead(y)
        y = scale(y, 1 / c2)
        c = c * c2
    r = scale(N({((Atom('inv', (y,)), 1),): Fraction(1)}), 1 / c)
    if f is not None:
        r = mul(r, pow2(neg(f)))
    return r


def _common_pow2(x: N):
    es = None
    for m in sorted(x.p, key=_mono_key):
        e = None
        for a, k in m:
            if a.op == 'pow2':
                e = scale(a.args[0], k)
        if e is None:
            return None
        if es is None:
            es = e
    return es


def div(a: N, b: N) -> N:
    if a == b:
        return ONE
    # exact inverse atoms: p * inv(p)
    return mul(a, inv(b))


def pow2(e: N) -> N:
    """2**e with integer constants and bits (0/1 symbols) moved out of the exponent."""
    coef = Fraction(1)
    rest = {}
    bits = []
    for m, c in e.p.items():
        if m == ():
            n = c.numerator // c.denominator
            coef *= Fraction(2) ** n
            if c - n:
                rest[m] = c - n
        elif len(m) == 1 and m[0][1] == 1 and (m[0][0].bit or m[0][0].op == 'ind') and c.denominator == 1:
            bits.append((m, c))
        elif len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'log2' and c.denominator == 1 and abs(c) <= 4:
            t = npow(m[0][0].args[0], int(c))
            return mul(t, pow2(N({k: v for k, v in e.p.items() if k != m})))
        else:
            rest[m] = c
    r = num(coef)
    if rest:
        r = N({((Atom('pow2', (N(rest),)), 1),): coef})
    for m, c in bits:
        f = Fraction(2) ** int(c) - 1
        t = N({(): Fraction(1), m: f})
        if rest or True:
            p = {}
            for m1, c1 in r.p.items():
                for m2, c2 in t.p.items():
                    d = {}
                    for a, ex in m1 + m2:
                        d[a] = d.get(a, 0) + ex
                    for a in d:
                        if (a.bit or a.op == 'ind') and d[a] > 1:
                            d[a] = 1
                    _acc(p, tuple(sorted(((a, ex) for a, ex in d.items() if ex), key=lambda z: z[0].key)), c1 * c2)
            r = N(p)
    return r


def log2(x: N) -> N:
    """log2 with powers of two split off."""
    if x.const is not None and x.const > 0:
        n = 0
        c = x.const
        while c.denominator == 1 and c.numerator % 2 == 0:
            c /= 2
            n += 1
        while c.denominator % 2 == 0:
            c *= 2
            n -= 1
        if c == 1:
            return num(n)
        return add(num(n), of_atom(Atom('log2', (num(c),))))
    if len(x.p) == 1:
        (m, c), = x.p.items()
        e2 = [a.args[0] if k == 1 else scale(a.args[0], k) for a, k in m if a.op == 'pow2']
        if e2 and c > 0:
            rest = tuple((a, k) for a, k in m if a.op != 'pow2')
            base = log2(N({rest: c})) if rest or c != 1 else ZERO
            return add(base, *e2)
        if c > 0 and m and c != 1:
            l = log2(num(c))
            if l.const is not None:
                return add(l, log2(N({m: Fraction(1)})))
    elif len(x.p) > 1:
        y, f = strip_pos(x)
        if f is not None and f != ONE:
            l = log2(f)
            if all(not any(a.op == 'log2' for a, _ in m) for m in l.p):
                return add(log2(y), l)
    return of_atom(Atom('log2', (x,)))


def log(x: N) -> N:
    if x.const == 2:
        return of_atom(LN2)
    if x.const == 1:
        return ZERO
    return of_atom(Atom('log', (x,)))


# ------------------------------------------------------------ integrality, bounds
def atom_integral(a: Atom):
    return a.integral or a.bit or a.op in ('floor', 'round', 'trunc', 'len', 'ind')


def integral(x: N) -> bool:
    return all(_mono_integral(m, c) for m, c in x.p.items())


def _mono_integral(m, c):
    if c.denominator == 1 and c.numerator % 2 == 0 and any(a.op == 'pow2' and e == 1 and not _nonneg_int(a.args[0]) for a, e in m):
        # even coefficient absorbed by a power of two
        n = (c.numerator & -c.numerator).bit_length() - 1
        for a, e in m:
            if a.op == 'pow2' and e == 1:
                b = bounds(a.args[0])
                return (b[0] is not None and b[0] + n >= 0 and integral(a.args[0])
                        and all(g > 0 and (x is a or atom_integral(x) or (x.op in ('relu', 'max') and all(integral(z) for z in x.args if isinstance(z, N)))) for x, g in m))
    return c.denominator == 1 and all(e > 0 and (atom_integral(a) or (a.op == 'pow2' and _nonneg_int(a.args[0]))
                                                 or (a.op in ('relu', 'max') and all(integral(z) for z in a.args if isinstance(z, N))))
                                      for a, e in m)


def _nonneg_int(x: N):
    if not integral(x):
        return False
    b = bounds(x)
    return b[0] is not None and b[0] >= 0


NOB = (None, False, None, False)


def _tz_pair(x: N):
    """c*(floor(log2 y) - tz y) >= 0: drop the pair, keeping the sign of the rest"""
    for m, c in x.p.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'tz':
            y = m[0][0].args[0]
            f = nfloor(log2(y))
            if f.atom is not None:
                k = ((f.atom, 1),)
                if x.p.get(k) == -c:
                    return N({q: v for q, v in x.p.items() if q != m and q != k}), -c
    return None, 0


def bounds(x: N):
    lo, los, hi, his = Fraction(0), False, Fraction(0), False
    if len(x.p) > 1 and any(len(m) == 1 and m[0][0].op == 'tz' for m in x.p):
        r, c = _tz_pair(x)
        if r is not None:
            b = bounds(r)
            return (b[0], b[1], None, False) if c > 0 else (None, False, b[2], b[3])
    for m, c in x.p.items():
        l, ls, h, hs = mono_bounds(m)
        if c < 0:
            l, ls, h, hs = h, hs, l, ls
        if lo is not None:
            lo = None if l is None else lo + l * c
            los = los or ls
        if hi is not None:
            hi = None if h is None else hi + h * c
            his = his or hs
    rl = [(m, c) for m, c in x.p.items() if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'relu'] if len(x.p) > 1 else ()
    for m, c in rl if len(rl) <= 3 else ():
        # r - relu(y) = min(r, r - y), r + relu(y) = max(r, r + y)
        r = N({q: k for q, k in x.p.items() if q != m})
        b0, b1 = bounds(r), bounds(add(r, scale(m[0][0].args[0], c)))
        if c < 0:
            l = None if b0[0] is None or b1[0] is None else min((b0[0], b0[1]), (b1[0], b1[1]))
            h = min([(b[2], not b[3]) for b in (b0, b1) if b[2] is not None], default=None)
        else:
            l = max([(b[0], b[1]) for b in (b0, b1) if b[0] is not None], default=None)
            h = None if b0[2] is None or b1[2] is None else max((b0[2], not b0[3]), (b1[2], not b1[3]))
        if l is not None and (lo is None or l > (lo, los)):
            lo, los = l
        if h is not None and (hi is None or h < (hi, not his)):
            hi, his = h[0], not h[1]
    return (lo, los if lo is not None else False, hi, his if hi is not None else False)


def mono_bounds(m):
    if m == ():
        return (Fraction(1), False, Fraction(1), False)
    r = None
    for a, e in m:
        b = atom_bounds(a)
        if e != 1:
            if e == 2 and b == NOB:
                b = (Fraction(0), False, None, False)
            elif b[0] is not None and b[0] >= 0:
                if e > 0:
                    b = (b[0] ** e, b[1], None if b[2] is None else b[2] ** e, b[3])
                else:
                    lo = Fraction(0) if b[2] is None else b[2] ** e
                    hi = None if b[0] == 0 else b[0] ** e
                    b = (lo, True if b[2] is None else b[3], hi, b[1])
            else:
                b = NOB
        if r is None:
            r = b
        else:
            if r[0] is not None and r[0] >= 0 and b[0] is not None and b[0] >= 0:
                hi = None if r[2] is None or b[2] is None else r[2] * b[2]
                r = (r[0] * b[0], r[1] or b[1], hi, r[3] or b[3])
            else:
                return NOB
    return r


def atom_bounds(a: Atom):
    if a.bnd is not None:
        return a.bnd
    if a.op == 'ind':
        return (Fraction(0), False, Fraction(1), False)
    if a.op == 'pow2':
        l, ls, h, hs = bounds(a.args[0])
        lo = Fraction(2) ** int(l) if l is not None and abs(l) < 200 and l.denominator == 1 else Fraction(0)
        hi = Fraction(2) ** int(h) if h is not None and abs(h) < 200 and h.denominator == 1 else None
        return (lo, ls or lo == 0, hi, hs)
    if a.op == 'relu':
        l, ls, h, hs = bounds(a.args[0])
        return (max(Fraction(0), l) if l is not None else Fraction(0), False, None if h is None else max(h, Fraction(0)), False)
    if a.op in ('sqrt', 'len', 'abs'):
        return (Fraction(0), False, None, False)
    if a.op == 'floor':
        l, ls, h, hs = bounds(a.args[0])
        fl = None if l is None else Fraction(l.numerator // l.denominator)
        if h is None:
            fh = None
        else:
            fh = Fraction(h.numerator // h.denominator)
            if hs and fh == h:
                fh -= 1
        return (fl, False, fh, False)
    if a.op == 'log2':
        l, ls, h, hs = bounds(a.args[0])
        lo = None if l is None or l <= 0 else _log2_floor(l)
        hi = None if h is None or h <= 0 else -_log2_floor(1 / h)
        return (lo, ls if lo is not None else False, hi, hs if hi is not None else False)
    return NOB


def _log2_floor(c: Fraction) -> Fraction:
    """largest multiple of 2**-10 not above log2(c)"""
    q = c ** 1024
    n, d = q.numerator, q.denominator
    e = n.bit_length() - d.bit_length()
    if (n << -e if e < 0 else n) < (d << e if e > 0 else d):
        e -= 1
    return Fraction(e, 1024)


# ------------------------------------------------------------ normalised operators
def nfloor(x: N) -> N:
    out, rest = {}, {}
    for m, c in x.p.items():
        if m != () and _mono_integral(m, c):
            out[m] = c
        elif m == ():
            n = Fraction(c.numerator // c.denominator)
            if n:
                out[m] = n
            if c - n:
                rest[m] = c - n
        else:
            # split integer part of the coefficient of an integral monomial
            if _mono_integral(m, Fraction(1)):
                n = Fraction(c.numerator // c.denominator)
                if n:
                    out[m] = n
                rest[m] = c - n
            else:
                rest[m] = c
    r = N(rest)
    base = N(out)
    if r.const is not None:
        c = r.const
        return add(base, num(Fraction(c.numerator // c.denominator)))
    ex = expand_ind(r, nfloor)
    if ex is not None:
        return add(base, ex)
    lo, ls, hi, hs = bounds(r)
    if lo is not None and hi is not None:
        f = Fraction(lo.numerator // lo.denominator)
        if hi < f + 1 or (hi == f + 1 and hs):
            return add(base, num(f))
    return add(base, of_atom(Atom('floor', (r,), integral=True)))


def expand_ind(x: N, f):
    """f(x) where x mentions indicator atoms: case split on each of them."""
    for m in x.p:
        for a, e in m:
            if a.op == 'ind':
                hi = subst_atom(x, a, ONE)
                lo = subst_atom(x, a, ZERO)
                A = of_atom(a)
                return add(mul(A, f(hi)), mul(sub(ONE, A), f(lo)))
    return None


def expand_bits(x: N, f):
    """f(x) where x is made of (at most three) 0/1 symbols only"""
    bs = {a for m in x.p for a, e in m}
    if not bs or len(bs) > 3 or not all(a.bit for a in bs):
        return None
    a = min(bs, key=lambda z: z.key)
    A = of_atom(a)
    return add(mul(A, f(subst_atom(x, a, ONE))), mul(sub(ONE, A), f(subst_atom(x, a, ZERO))))


def subst_atom(x: N, a: Atom, v: N) -> N:
    r = ZERO
    for m, c in x.p.items():
        if any(b == a for b, _ in m):
            t = num(c)
            for b, e in m:
                t = mul(t, npow(v if b == a else of_atom(b), e))
            r = add(r, t)
        else:
            r = add(r, N({m: c}))
    return r


def nceil(x: N) -> N:
    return neg(nfloor(neg(x)))


def nround(x: N) -> N:
    """round half to even"""
    if integral(x):
        return x
    if x.const is not None:
        return num(round(x.const))
    ex = expand_ind(x, nround)
    if ex is not None:
        return ex
    # x = n + r, n integral, r bounded
    out, rest = {}, {}
    for m, c in x.p.items():
        if m != () and _mono_integral(m, c):
            out[m] = c
        else:
            rest[m] = c
    r, base = N(rest), N(out)
    if r.const is not None:
        c = r.const
        n = c.numerator // c.denominator
        fr = c - n
        if fr < Fraction(1, 2):
            return add(base, num(n))
        if fr > Fraction(1, 2):
            return add(base, num(n + 1))
        # exact tie: parity of base matters
        if all(k.denominator == 1 and k % 2 == 0 and _mono_integral(m, Fraction(1)) for m, k in base.p.items()):
            return add(base, num(round(c)))
    else:
        lo, ls, hi, hs = bounds(r)
        if lo is not None and hi is not None:
            f = (lo + Fraction(1, 2)).numerator // (lo + Fraction(1, 2)).denominator
            # r in (f-1/2, f+1/2) strictly
            l, h = f - Fraction(1, 2), f + Fraction(1, 2)
            if (lo > l or (lo == l and ls)) and (hi < h or (hi == h and hs)):
                return add(base, num(f))
    s = 1
    if lead(x) < 0:
        x, s = neg(x), -1
    return scale(of_atom(Atom('round', (x,), integral=True)), s)


def ntrunc(x: N) -> N:
    """conversion to an integer type"""
    if integral(x):
        return x
    if x.const is not None:
        return num(int(x.const))
    b = bounds(x)
    if b[0] is not None and b[0] >= 0:
        return nfloor(x)
    if b[2] is not None and b[2] <= 0:
        return nceil(x)
    s = 1
    if lead(x) < 0:
        x, s = neg(x), -1
    return scale(of_atom(Atom('trunc', (x,), integral=True)), s)


def relu(x: N) -> N:
    if x.const is not None:
        return num(max(x.const, Fraction(0)))
    b = bounds(x)
    if b[0] is not None and b[0] >= 0:
        return x
    if b[2] is not None and b[2] <= 0:
        return ZERO
    ex = expand_ind(x, relu)
    if ex is not None:
        return ex
    ex = expand_bits(x, relu)
    if ex is not None:
        return ex
    # infinities
    for m, c in x.p.items():
        if len(m) == 1 and m[0][0].op == 'inf' and m[0][1] == 1:
            return x if c > 0 else ZERO
    # clamp: relu(A - k*relu(u)) = A - k*relu(u) + relu(k*u - A)   for A >= 0
    rl = [(m, c) for m, c in x.p.items() if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'relu']
    if len(rl) == 1 and rl[0][1] < 0:
        m, c = rl[0]
        A = N({q: k for q, k in x.p.items() if q != m})
        lo = bounds(A)[0]
        if lo is not None and lo >= 0:
            return add(x, relu(sub(scale(m[0][0].args[0], -c), A)))
        # relu(A - k*relu(u)) = relu(A) - k*relu(u)   for A >= k*u
        lo = bounds(sub(A, scale(m[0][0].args[0], -c)))[0]
        if lo is not None and lo >= 0:
            return sub(relu(A), scale(of_atom(m[0][0]), -c))
    x0 = x
    x, f = strip_pos(x)
    if f is not None and len(x.p) <= 3:
        b = bounds(x)
        if b[0] is not None and b[0] >= 0:
            return x0
        if b[2] is not None and b[2] <= 0:
            return ZERO
    if lead(x) < 0:
        y = neg(x)
        r = sub(of_atom(Atom('relu', (y,))), y)
    else:
        r = of_atom(Atom('relu', (x,)))
    return r if f is None else mul(r, f)


def strip_pos(x: N):
    """factor positive content (coefficient, common power of two) out of x: x = y*f"""
    c = abs(lead(x))
    y = scale(x, 1 / c)
    f = num(c) if c != 1 else None
    p = _common_pow2(y)
    if p is not None:
        y = mul(y, pow2(neg(p)))
        f = mul(f or ONE, pow2(p))
        c = abs(lead(y))
        if c != 1:
            y = scale(y, 1 / c)
            f = mul(f, num(c))
    return y, f


def nmax(a: N, b: N) -> N:
    if a == b:
        return a
    # max(-inf, x), max(inf, x)
    for u, v in ((a, b), (b, a)):
        at = [(c, m) for m, c in u.p.items() if len(m) == 1 and m[0][0].op == 'inf' and m[0][1] == 1]
        if len(u.p) == 1 and at:
            return u if at[0][0] > 0 else v
    return add(b, relu(sub(a, b)))


def nmin(a: N, b: N) -> N:
    return neg(nmax(neg(a), neg(b)))


def nabs(x: N) -> N:
    return sub(scale(relu(x), 2), x)


def nsign(x: N) -> N:
    if x.const is not None:
        return num((x.const > 0) - (x.const < 0))
    b = bounds(x)
    if b[0] is not None and (b[0] > 0 or (b[0] == 0 and b[1])):
        return ONE
    if b[2] is not None and (b[2] < 0 or (b[2] == 0 and b[3])):
        return num(-1)
    ex = expand_ind(x, nsign)
    if ex is not None:
        return ex
    return sub(ind(gt0(x)), ind(gt0(neg(x))))


def nsqrt(x: N) -> N:
    if x.const is not None and x.const >= 0:
        from math import isqrt
        c = x.const
        n, d = isqrt(c.numerator), isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return num(Fraction(n, d))
    if len(x.p) == 1:
        (m, c), = x.p.items()
        if len(m) == 1 and m[0][0].op == 'pow2' and c == 1:
            return pow2(scale(m[0][0].args[0], Fraction(m[0][1], 2)))
    return of_atom(Atom('sqrt', (x,)))


def nfloordiv(a, b):
    return nfloor(div(a, b))


def nfloormod(a, b):
    return sub(a, mul(b, nfloor(div(a, b))))


# ------------------------------------------------------------ conditions
class Ite(V):
    __slots__ = ('a', 'h', 'l')

    def __init__(self, a, h, l):
        self.a, self.h, self.l = a, h, l
        self.key = f'<{a.key} ? {h.key} : {l.key}>'


def _split_lin(p: N):
    c = p.p.get((), Fraction(0))
    return N({m: k for m, k in p.p.items() if m != ()}), c


def implied(a: Atom, val: bool, b: Atom):
    """Truth value of condition atom b given that atom a has truth value val (None: unknown)."""
    if a == b:
        return val
    if a.op in ('gt0', 'eq0') and b.op in ('gt0', 'eq0'):
        la, ca = _split_lin(a.args[0])
        lb, cb = _split_lin(b.args[0])
        s = 1
        if la != lb:
            if la == neg(lb):
                s = -1
            else:
                return None
        # a: L + ca (>|==) 0 ; b: s*L + cb (>|==) 0
        integ = integral(a.args[0])
        if a.op == 'eq0':
            if not val:
                return None
            vb = s * (-ca) + cb
            return vb > 0 if b.op == 'gt0' else vb == 0
        # a gt0
        if val:      # L > -ca
            if s == 1:
                if b.op == 'gt0':
                    if -cb <= -ca:
                        return True
                    if integ and -cb < -ca + 1 and False:
                        return True
                    return None
                if -cb <= -ca:
                    return False
                return None
            else:    # b: cb - L > 0  <=> L < cb
                if b.op == 'gt0':
                    if cb <= -ca:
                        return False
                    if integ and cb <= -ca + 1:
                        return False
                    return None
                if cb <= -ca:
                    return False
                return None
        else:        # L <= -ca
            if s == 1:
                if b.op == 'gt0':   # L > -cb
                    return False if -cb >= -ca else None
                return False if -cb > -ca else None
            else:    # L < cb
                if b.op == 'gt0':
                    return True if cb > -ca else None
                return False if cb > -ca else None
    if a.op == 'eq' and b.op == 'eq' and val:
        if a.args[0] == b.args[0] and a.args[1] != b.args[1]:
            return False
        return None
    return None


def top(v):
    return v.a if isinstance(v, Ite) else None


def cof(v, a, val):
    if isinstance(v, Ite) and v.a == a:
        return v.h if val else v.l
    return v


_ri = {}


def restrict(v, a, val):
    """simplify v under the assumption that atom a has truth value val"""
    if not isinstance(v, Ite):
        return v
    k = (v.key, a.key, val)
    r = _ri.get(k)
    if r is not None:
        return r
    t = implied(a, val, v.a)
    if t is True:
        r = restrict(v.h, a, val)
    elif t is False:
        r = restrict(v.l, a, val)
    else:
        h, l = restrict(v.h, a, val), restrict(v.l, a, val)
        r = v if (h is v.h and l is v.l) else _mk(v.a, h, l)
    _ri[k] = r
    return r


def _mk(a, h, l):
    if h == l:
        return h
    return Ite(a, h, l)


_ia = {}


def ite_atom(a: Atom, h, l):
    """gate on one atom, keeping decision order canonical"""
    if h == l:
        return h
    k = (a.key, h.key, l.key)
    r = _ia.get(k)
    if r is not None:
        return r
    tick()
    h0, l0 = restrict(h, a, True), restrict(l, a, False)
    th, tl = top(h0), top(l0)
    t = min((x for x in (th, tl) if x is not None), key=lambda x: x.key, default=None)
    if t is None or a.key < t.key:
        r = _mk(a, h0, l0)
    elif a == t:
        r = _mk(a, cof(h0, a, True), cof(l0, a, False))
    else:
        ih = implied(t, True, a)
        il = implied(t, False, a)
        hh, lh = restrict(cof(h0, t, True), t, True), restrict(cof(l0, t, True), t, True)
        hl, ll = restrict(cof(h0, t, False), t, False), restrict(cof(l0, t, False), t, False)
        H = hh if ih is True else lh if ih is False else ite_atom(a, hh, lh)
        L = hl if il is True else ll if il is False else ite_atom(a, hl, ll)
        r = _mk(t, H, L)
    _ia[k] = r
    return r


def apply(f, *vs):
    """lift f over the gates of its arguments"""
    tops = [v.a for v in vs if isinstance(v, Ite)]
    if not tops:
        return f(*vs)
    t = min(tops, key=lambda x: x.key)
    hi = apply(f, *[restrict(cof(v, t, True), t, True) for v in vs])
    lo = apply(f, *[restrict(cof(v, t, False), t, False) for v in vs])
    return ite_atom(t, hi, lo)


def ite(c, a, b):
    """general gate; c is a condition (decision diagram over TRUE/FALSE)"""
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if a == b:
        return a
    return apply(_sel, c, a, b)


def _sel(c, a, b):
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    raise TypeError(f'not a condition: {c}')


def cnot(c):
    return ite(c, FALSE, TRUE)


def cand(a, b):
    if a == TRUE:
        return b
    if b == TRUE:
        return a
    if a == FALSE or b == FALSE:
        return FALSE
    return ite(a, b, FALSE)


def cor(a, b):
    return ite(a, TRUE, b) if a != FALSE else b


def cond_atom(a: Atom):
    return Ite(a, TRUE, FALSE)


def is_cond(v):
    if isinstance(v, Ite):
        return is_cond(v.h) and is_cond(v.l)
    return v == TRUE or v == FALSE


def gt0(p: N):
    """condition p > 0 in canonical form"""
    if p.const is not None:
        return C(p.const > 0)
    for m, c in p.p.items():
        if len(m) == 1 and m[0][0].op == 'inf' and m[0][1] == 1:
            return C(c > 0)
    lo, ls, hi, hs = bounds(p)
    if lo is not None and (lo > 0 or (lo == 0 and ls)):
        return TRUE
    if hi is not None and hi <= 0:
        return FALSE
    for m in p.p:
        for a, e in m:
            if a.op == 'ind':
                return ite(cond_atom(a.args[0]), gt0(subst_atom(p, a, ONE)), gt0(subst_atom(p, a, ZERO)))
            if a.op == 'sym' and a.bit:
                return ite(cond_atom(Atom('eq0', (sub(of_atom(a), ONE),))), gt0(subst_atom(p, a, ONE)), gt0(subst_atom(p, a, ZERO)))
    # relu(y) > 0  <=>  y > 0
    if len(p.p) == 1:
        (m, c), = p.p.items()
        if len(m) == 1 and m[0][0].op == 'relu' and c > 0:
            return gt0(m[0][0].args[0])
    if integral(p):
        if lead(p) < 0:
            return cnot(gt0(sub(ONE, p)))
        # divide by gcd of non constant coefficients
        from math import gcd
        g = 0
        for m, c in p.p.items():
            if m != ():
                g = gcd(g, int(c))
        c0 = p.p.get((), Fraction(0))
        if g > 1:
            # p = g*q + c0 > 0  <=> q > -c0/g  <=> q >= floor(-c0/g)+1
            q = N({m: c / g for m, c in p.p.items() if m != ()})
            t = (-c0 / g)
            t = t.numerator // t.denominator
            p = sub(q, num(t))
        return cond_atom(Atom('gt0', (p,)))
    p0 = p
    p, _ = strip_pos(p)
    if p is not p0 and p.key != p0.key:
        return gt0(p)
    # strip positive factors of a single monomial
    if len(p.p) == 1:
        (m, c), = p.p.items()
        keep = {}
        for a, e in m:
            b = atom_bounds(a)
            if b[0] is not None and (b[0] > 0 or (b[0] == 0 and b[1])):
                continue
            if a.op == 'sqrt':
                a = Atom('sqrt', a.args)
            keep[a] = e
        if not keep:
            return C(c > 0)
        p = scale(_norm_mono(keep), c)
    return cond_atom(Atom('gt0', (p,)))


def eq0(p: N):
    if p.const is not None:
        return C(p.const == 0)
    for m, c in p.p.items():
        if len(m) == 1 and m[0][0].op == 'inf' and m[0][1] == 1:
            return FALSE
    lo, ls, hi, hs = bounds(p)
    if lo is not None and (lo > 0 or (lo == 0 and ls)):
        return FALSE
    if hi is not None and (hi < 0 or (hi == 0 and hs)):
        return FALSE
    for m in p.p:
        for a, e in m:
            if a.op == 'ind':
                return ite(cond_atom(a.args[0]), eq0(subst_atom(p, a, ONE)), eq0(subst_atom(p, a, ZERO)))
    if len(p.p) == 2 and () in p.p or len(p.p) == 1:
        # single bit symbol: k == 0  <=>  not (k == 1)
        ms = [m for m in p.p if m != ()]
        if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][0].bit and ms[0][0][1] == 1:
            v = -p.p.get((), Fraction(0)) / p.p[ms[0]]
            one = cond_atom(Atom('eq0', (sub(of_atom(ms[0][0][0]), ONE),)))
            return one if v == 1 else cnot(one) if v == 0 else FALSE
    if _never_integral(p):
        return FALSE
    p, _ = strip_pos(p)
    if lead(p) < 0:
        p = neg(p)
    return cond_atom(Atom('eq0', (p,)))


def _never_integral(p: N):
    """sum of integers with rational coefficients that is never an integer (so never 0), by divisibility"""
    from math import gcd, lcm
    c0 = p.p.get((), Fraction(0))
    if c0.denominator == 1 or not all(_mono_integral(m, Fraction(1)) for m in p.p if m):
        return False
    D = lcm(*[c.denominator for c in p.p.values()])
    g = D
    for m, c in p.p.items():
        if m:
            g = gcd(g, int(c * D))
    return int(c0 * D) % g != 0


def ind(c) -> N:
    """indicator (0/1) of an element-wise condition as a multilinear polynomial"""
    if c == TRUE:
        return ONE
    if c == FALSE:
        return ZERO
    if isinstance(c, Ite):
        A = c.a
        if A.op == 'eq0':
            # bit symbols: [k == 1] is k itself
            q = A.args[0]
            lin, c0 = _split_lin(q)
            if lin.atom is not None and lin.atom.bit and c0 == -1:
                a = lin
                return add(mul(a, ind(c.h)), mul(sub(ONE, a), ind(c.l)))
        a = of_atom(Atom('ind', (A,)))
        return add(mul(a, ind(c.h)), mul(sub(ONE, a), ind(c.l)))
    raise TypeError(f'not a condition: {c}')


# ------------------------------------------------------------ structures
class Tup(V):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)
        self.key = '(' + ', '.join(i.key for i in self.items) + ',)'


class DictV(V):
    """ordered mapping (order kept for iteration, ignored for comparison)"""
    __slots__ = ('kv',)

    def __init__(self, kv):
        self.kv = tuple(kv)
        self.key = '{' + ', '.join(f'{k.key}: {v.key}' for k, v in sorted(self.kv, key=lambda t: t[0].key)) + '}'

    def get(self, k):
        for a, b in self.kv:
            if a == k:
                return b
        return None


class Ref(V):
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id
        self.key = f'@{id}'


def walk(v):
    """all sub-terms of a frozen value"""
    seen = set()
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, V):
            continue
        k = (isinstance(x, Atom), x.key)
        if k in seen:
            continue
        seen.add(k)
        yield x
        if isinstance(x, N):
            for m in x.p:
                for a, e in m:
                    stack.append(a)
        elif isinstance(x, Atom):
            stack.extend(x.args)
        elif isinstance(x, Ite):
            stack += [x.a, x.h, x.l]
        elif isinstance(x, Tup):
            stack.extend(x.items)
        elif isinstance(x, DictV):
            for k, w in x.kv:
                stack += [k, w]


def rebuild(v, fatom):
    """bottom-up rewriting of a frozen value: fatom(Atom)-> N|Atom|None (None: keep, after children)"""
    if isinstance(v, N):
        r = ZERO
        for m, c in v.p.items():
            t = num(c)
            for a, e in m:
                t = mul(t, npow(_reb_atom(a, fatom), e))
            r = add(r, t)
        return r
    if isinstance(v, Tup):
        return Tup([rebuild(x, fatom) for x in v.items])
    if isinstance(v, DictV):
        return DictV([(rebuild(k, fatom), rebuild(x, fatom)) for k, x in v.kv])
    if isinstance(v, Ite):
        return ite_atom(_reb_cond(v.a, fatom), rebuild(v.h, fatom), rebuild(v.l, fatom))
    return v


def _reb_arg(a, fatom):
    if isinstance(a, tuple):
        return tuple(_reb_arg(x, fatom) for x in a)
    if isinstance(a, Atom):
        return _reb_cond(a, fatom)
    if isinstance(a, V):
        return rebuild(a, fatom)
    return a


def _reb_cond(a, fatom):
    return Atom(a.op, [_reb_arg(x, fatom) for x in a.args], a.integral, a.bit, a.bnd)


def _reb_atom(a, fatom) -> N:
    r = fatom(a)
    if r is not None:
        return r
    if a.op == 'sym':
        return of_atom(a)
    args = [_reb_arg(x, fatom) for x in a.args]
    if all(x is y or x == y for x, y in zip(args, a.args)):
        return of_atom(a)
    f = REBUILD.get(a.op)
    if f is not None:
        return f(*args)
    if a.op == 'ind':
        c = args[0]
        return ind(Ite(c, TRUE, FALSE))
    return of_atom(Atom(a.op, args, a.integral, a.bit, a.bnd))


REBUILD = {'floor': nfloor, 'round': nround, 'trunc': ntrunc, 'relu': relu, 'pow2': pow2, 'log2': log2,
           'log': log, 'sqrt': nsqrt, 'inv': inv}


# ------------------------------------------------------------ generalised cofactor
_cc = {}


def constrain(f, c):
    """f simplified on the domain c (canonical: equal on c => equal result)"""
    if c == TRUE or c == FALSE:
        return f
    if isinstance(f, Tup):
        return Tup([constrain(x, c) for x in f.items])
    if isinstance(f, DictV):
        return DictV([(k, constrain(x, c)) for k, x in f.kv])
    if not isinstance(f, Ite):
        return f
    k = (f.key, c.key)
    r = _cc.get(k)
    if r is None:
        v = f.a if f.a.key <= c.a.key else c.a
        c1, c0 = restrict(cof(c, v, True), v, True), restrict(cof(c, v, False), v, False)
        f1, f0 = restrict(cof(f, v, True), v, True), restrict(cof(f, v, False), v, False)
        if c0 == FALSE:
            r = constrain(f1, c1)
        elif c1 == FALSE:
            r = constrain(f0, c0)
        else:
            r = _mk(v, constrain(f1, c1), constrain(f0, c0))
        _cc[k] = r
    return r


def literals(c):
    """literals (atom, value) forced by condition c"""
    out = []
    while isinstance(c, Ite):
        if c.l == FALSE:
            out.append((c.a, True))
            c = c.h
        elif c.h == FALSE:
            out.append((c.a, False))
            c = c.l
        else:
            break
    return out
