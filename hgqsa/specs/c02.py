# overflow handling of an already integer value x at width b, for every x and b
import tensorflow as tf
from HGQ.proxy.fixed_point_quantizer import gfixed_quantizer, fixed, ufixed, FixedPointQuantizer

MODES = ('WRAP', 'WRAP_SM', 'SAT', 'SAT_SYM', 'SAT_ZERO')


def expected(mode, x, k, b):
    high = 2.**(b - k) - 1
    low = -(high + 1) * k
    size = 2.**b
    if mode == 'WRAP':
        return x - size * tf.floor((x - low) / size)
    if mode == 'WRAP_SM':
        # reflection with period 2*size: high+1+j -> high-j, then back up
        j = (x - high - 1) - 2 * size * tf.floor((x - high - 1) / (2 * size))   # in [0, 2*size)
        return tf.abs(j - size + 0.5) - 0.5 + low
    if mode == 'SAT':
        return tf.minimum(tf.maximum(x, low), high)
    if mode == 'SAT_SYM':
        return tf.minimum(tf.maximum(x, -high * k), high)
    if mode == 'SAT_ZERO':
        return tf.where((x <= high) & (x >= low), x, 0.)


def overflow(mode, k):
    x = _sym('x', integral=True)
    b = _sym('b', lo=1, hi=24, integral=True)
    got = gfixed_quantizer(x, k, b, b, RND='TRN', SAT=mode)
    _same('all integers', got, expected(mode, x, k, b))
    h = (fixed if k else ufixed)(b, b, 'TRN', mode)
    _same('helper', h(x), expected(mode, x, k, b))
    got = gfixed_quantizer(x * 0.25, k, b, b - 2, RND='TRN', SAT=mode)
    _same('two fractional bits', got, expected(mode, x, k, b) * 0.25)


def ob_overflow_modes():
    for mode in MODES:
        for k in (0, 1):
            _case(f'{mode} {"signed" if k else "unsigned"}', overflow, mode, k)


def point(mode, k, b):
    # in range, first codes beyond either bound, and a full period away, at a fixed width
    high = 2**(b - k) - 1
    low = -(high + 1) * k
    size = 2**b
    q = FixedPointQuantizer(k, b, b, 'TRN', mode)
    t = _sym('t', lo=low, hi=high, integral=True)
    inrange = t
    if mode == 'SAT_SYM' and k:
        inrange = tf.maximum(t, low + 1)
    _same('in range', q(t), inrange)
    for d in (0, 1, size - 1, size, 2 * size + 1):
        for x in (high + 1 + d, low - 1 - d):
            up = x > high
            if mode == 'WRAP':
                want = (x - low) % size + low
            elif mode == 'WRAP_SM':
                j = (x - high - 1) % (2 * size)
                want = high - j if j < size else low + (j - size)
            elif mode == 'SAT':
                want = high if up else low
            elif mode == 'SAT_SYM':
                want = high if up else -high * k
            else:
                want = 0
            _same(f'{x}', q(x), want)


def ob_layer_codes():
    for mode in MODES:
        for k in (0, 1):
            for b in (2, 3, 8):
                _case(f'{mode} k={k} b={b}', point, mode, k, b)


def ob_unknown_mode_refused():
    _raises('unknown overflow mode', lambda: gfixed_quantizer(_sym('x'), 1, 8, 4, RND='TRN', SAT='SAT_NONSENSE'))
