# x*scale = n + r, n integer, r in [0, 1): complete case split on the tie behaviour, the sign and the parity.
from HGQ.proxy.fixed_point_quantizer import gfixed_quantizer, gfixed, fixed, FixedPointQuantizer

MODES = ('TRN', 'TRN_ZERO', 'RND', 'RND_ZERO', 'RND_INF', 'RND_MIN_INF', 'RND_CONV')


def expected(mode, n, neg, odd, r):
    """integer prescribed by ap_fixed for n + r; neg: the value is negative"""
    frac = r != 'zero'
    above = r == 'above'
    tie = r == 'tie'
    if mode == 'TRN':
        return n
    if mode == 'TRN_ZERO':
        return n + 1 if neg and frac else n
    if mode == 'RND':
        return n + 1 if tie or above else n
    if mode == 'RND_MIN_INF':
        return n + 1 if above else n
    if mode == 'RND_INF':
        return n + 1 if above or (tie and not neg) else n
    if mode == 'RND_ZERO':
        return n + 1 if above or (tie and neg) else n
    if mode == 'RND_CONV':
        return n + 1 if above or (tie and odd) else n


def domain(sign, parity, r):
    m = _sym('m', lo=0, hi=400, integral=True) if sign == 'nonneg' else _sym('m', lo=-400, hi=-1, integral=True)
    n = 2 * m + 1 if parity == 'odd' else 2 * m
    if r == 'zero':
        return n, 0
    if r == 'below':
        return n, _sym('r', lo=0, hi=0.5, los=True, his=True)
    if r == 'tie':
        return n, 0.5
    return n, _sym('r', lo=0.5, hi=1, los=True, his=True)


def rounding(mode, sign, parity, r):
    n, rr = domain(sign, parity, r)
    f = _sym('f', lo=-12, hi=12, integral=True)
    want = expected(mode, n, sign == 'neg', parity == 'odd', r)
    x = (n + rr) * 2.**-f
    for sat in ('WRAP', 'SAT'):
        got = gfixed_quantizer(x, 1, 16, 16 - f, RND=mode, SAT=sat)
        _same(f'gfixed_quantizer SAT={sat}', got, want * 2.**-f)
    _same('fixed', fixed(16, 16 - f, mode, 'WRAP')(x), want * 2.**-f)
    if sign == 'nonneg':
        _same('unsigned', gfixed_quantizer(x, 0, 16, 16 - f, RND=mode, SAT='WRAP'), want * 2.**-f)


def ob_rounding_modes():
    for mode in MODES:
        for sign in ('nonneg', 'neg'):
            for parity in ('even', 'odd'):
                for r in ('zero', 'below', 'tie', 'above'):
                    _case(f'{mode}, {sign} {parity} integer part, fraction {r}', rounding, mode, sign, parity, r)


def layer(mode, sign, r):
    n, rr = domain(sign, 'even', r)
    q = FixedPointQuantizer(1, 16, 16, mode, 'WRAP')
    _same('layer', q(n + rr), expected(mode, n, sign == 'neg', False, r))


def ob_layer_uses_its_mode():
    for mode in MODES:
        for sign in ('nonneg', 'neg'):
            for r in ('zero', 'below', 'tie', 'above'):
                _case(f'{mode}, {sign}, {r}', layer, mode, sign, r)


def ob_unknown_mode_refused():
    _raises('unknown rounding mode', lambda: gfixed_quantizer(_sym('x'), 1, 8, 4, RND='RND_NONSENSE', SAT='WRAP'))
