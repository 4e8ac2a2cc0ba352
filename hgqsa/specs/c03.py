import numpy as np
import tensorflow as tf
from keras.layers import Input, Flatten, Dense
from HGQ.proxy.fixed_point_quantizer import gfixed_quantizer, gfixed, fixed, ufixed, FixedPointQuantizer

RNDS = ('TRN', 'TRN_ZERO', 'RND', 'RND_ZERO', 'RND_INF', 'RND_MIN_INF', 'RND_CONV')
SATS = ('WRAP', 'WRAP_SM', 'SAT', 'SAT_SYM', 'SAT_ZERO')


def rnd(mode, x):
    s = tf.sign(x)
    a = tf.abs(x)
    if mode == 'TRN':
        return tf.floor(x)
    if mode == 'RND':
        return tf.floor(x + 0.5)
    if mode == 'RND_CONV':
        return tf.round(x)
    if mode == 'TRN_ZERO':
        return s * tf.floor(a)
    if mode == 'RND_ZERO':
        return s * tf.math.ceil(a - 0.5)
    if mode == 'RND_MIN_INF':
        return tf.math.ceil(x - 0.5)
    if mode == 'RND_INF':
        return s * tf.floor(a + 0.5)


def sat(mode, x, k, b):
    high = 2.**(b - k) - 1
    low = -(high + 1) * k
    size = 2.**(b - k) * (1 + k)
    if mode == 'WRAP':
        return x - size * tf.floor((x - low) / size)
    if mode == 'WRAP_SM':
        j = (x - high - 1) - 2 * size * tf.floor((x - high - 1) / (2 * size))
        return tf.abs(j - size + 0.5) - 0.5 + low
    if mode == 'SAT':
        return tf.minimum(tf.maximum(x, low), high)
    if mode == 'SAT_SYM':
        return tf.minimum(tf.maximum(x, -high * k), high)
    if mode == 'SAT_ZERO':
        return tf.where((x <= high) & (x >= low), x, 0.)


def quantizer(r, s, k):
    x = _sym('x')
    b = _sym('b', lo=1, hi=24, integral=True)
    i = _sym('i', lo=-20, hi=20, integral=True)
    f = b - i
    want = sat(s, rnd(r, x * 2.**f), k, b) / 2.**f
    _same('gfixed_quantizer', gfixed_quantizer(x, k, b, i, r, s), want)
    _same('gfixed_quantizer keywords', gfixed_quantizer(x, keep_negative=k, bits=b, integer_bits=i, RND=r, SAT=s), want)
    _same('gfixed', gfixed(k, b, i, r, s)(x), want)
    _same('fixed/ufixed', (fixed if k else ufixed)(b, i, r, s)(x), want)
    _same('zero width', gfixed_quantizer(x, k, 0, i, r, s), 0)


def ob_quantizer():
    for r in RNDS:
        for s in SATS:
            for k in (0, 1):
                _case(f'{r} {s} k={k}', quantizer, r, s, k)


def ob_defaults_truncate_and_wrap():
    x = _sym('x')
    for k in (0, 1):
        want = sat('WRAP', rnd('TRN', x * 16), k, 6) / 16
        _same(f'gfixed_quantizer k={k}', gfixed_quantizer(x, k, 6, 2), want)
        _same(f'gfixed k={k}', gfixed(k, 6, 2)(x), want)
        _same(f'helper k={k}', (fixed if k else ufixed)(6, 2)(x), want)
        _same(f'layer k={k}', FixedPointQuantizer(k, 6, 2)(x), want)


def elementwise(r, s):
    # per-element bits (symbolic sign bit per element)
    x = _sym('x')
    k = _sym('k', bit=True)
    b = _sym('b', lo=1, hi=24, integral=True)
    i = _sym('i', lo=-20, hi=20, integral=True)
    want = sat(s, rnd(r, x * 2.**(b - i)), k, b) / 2.**(b - i)
    _same('symbolic sign', gfixed_quantizer(x, k, b, i, r, s), want)
    q = FixedPointQuantizer(np.array([1, 0, 1]), np.array([4, 0, 7]), np.array([2, 3, -1]), r, s)
    got = q(x)
    w = [sat(s, rnd(r, x * 4.), 1, 4) / 4., 0, sat(s, rnd(r, x * 256.), 1, 7) / 256.]
    _same('layer', got, w)
    _same('layer inference', q(x, training=False), w)


def ob_elementwise():
    for r in RNDS:
        _case(f'{r} WRAP', elementwise, r, 'WRAP')
    for s in SATS:
        _case(f'TRN {s}', elementwise, 'TRN', s)


def ob_layer_state():
    k = np.array([1, 0, 1, 1])
    b = np.array([4, 0, 7, 0])
    i = np.array([2, 3, -1, 5])
    q = FixedPointQuantizer(k, b, i, 'RND', 'SAT', name='q')
    # widths are kept as given, sign and integer bits are cleared where the width is zero
    _same('keep_negative', q.keep_negative, [1, 0, 1, 0])
    _same('bits', q.bits, b)
    _same('integers', q.integers, [2, 0, -1, 0])
    _same('RND', q.RND, 'RND')
    _same('SAT', q.SAT, 'SAT')
    _same('not trainable', q.trainable, False)
    for v in (q.keep_negative, q.bits, q.integers):
        _same('variable not trainable', v.trainable, False)


def ob_training_refused():
    q = FixedPointQuantizer(1, 6, 2)
    x = _sym('x')
    _raises('training=True', lambda: q(x, training=True))
    _raises('training=False', lambda: q(x, training=False), False)


def ob_result_type():
    k = [_sym(f'k{n}', bit=True) for n in range(3)]
    b = [_sym(f'b{n}', lo=1, hi=24, integral=True) for n in range(3)]
    i = [_sym(f'i{n}', lo=-20, hi=20, integral=True) for n in range(3)]
    q = FixedPointQuantizer(np.array(k), np.array(b), np.array(i))
    kk, ii, ff = q.result_t_kif
    _same('sign', kk, np.max(np.array(k)))
    _same('integer bits without sign', ii, np.max(np.array([i[0] - k[0], i[1] - k[1], i[2] - k[2]])))
    _same('fractional bits', ff, np.max(np.array([b[0] - i[0], b[1] - i[1], b[2] - i[2]])))


def het(k, b, i, want):
    q = FixedPointQuantizer(np.array(k), np.array(b), np.array(i))
    _same('heterogeneous', q.heterogeneous, want)
    x = Input((len(k),))
    y = Flatten()(x)
    z = q(y)
    _same('fusible, only consumer', q.fusible, not want)


def ob_heterogeneous():
    _case('uniform', het, [1, 1], [4, 4], [2, 2], False)
    _case('sign differs', het, [1, 0], [4, 4], [2, 2], True)
    _case('sign differs 2', het, [0, 1], [4, 4], [2, 2], True)
    _case('width differs', het, [1, 1], [4, 5], [2, 2], True)
    _case('width differs 2', het, [1, 1], [5, 4], [2, 2], True)
    _case('integer differs', het, [1, 1], [4, 4], [2, 1], True)
    _case('integer differs 2', het, [1, 1], [4, 4], [1, 2], True)
    _case('all differ', het, [1, 0], [4, 6], [1, 2], True)
    _case('single', het, [1], [4], [1], False)


def ob_fusible_only_without_other_consumer():
    q = FixedPointQuantizer(1, 4, 2)
    x = Input((3,))
    y = Flatten()(x)
    z = q(y)
    w = Dense(2)(y)
    _same('producer also feeds another layer', q.fusible, False)
    q2 = FixedPointQuantizer(1, 4, 2)
    z2 = q2(Dense(2)(x))
    _same('sole consumer', q2.fusible, True)


def ob_shape_mismatch_refused():
    _raises('bits longer', lambda: FixedPointQuantizer(np.array([1, 1]), np.array([4, 4, 4]), np.array([2, 2])))
    _raises('equal shapes', lambda: FixedPointQuantizer(np.array([1, 1]), np.array([4, 4]), np.array([2, 2])), False)
