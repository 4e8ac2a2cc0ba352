import numpy as np
import tensorflow as tf
from HGQ.quantizer import HGQ
from HGQ.quantizer.quantizer import get_arr_bits
from HGQ.layers import HDense, HQuantize, HConv2D


def mk(skip, shape, rec=True):
    q = HGQ(init_bw=2., skip_dims=skip, rnd_strategy='standard_round', exact_q_value=True, dtype=None, bw_clip=(-23, 23), trainable=True, regularizer=None, minmax_record=rec)
    q.build(shape)
    return q


def setup(fbw, a, b):
    """recorded range [a, b] * 2^-f on the grid of the quantizer"""
    q = mk((0,), (None, 3))
    _setvar(q.fbw, fbw)
    f = tf.round(fbw)
    _setvar(q._min, a * 2.**-f)
    _setvar(q._max, b * 2.**-f)
    return q, f


def want_ki(f, lo, hi):
    """smallest i such that -2^i <= lo and hi <= 2^i - 2^-f"""
    i = np.maximum(np.ceil(np.log2(np.abs(lo))), np.ceil(np.log2(np.abs(hi + 2.**-f))))
    k = tf.where(lo < 0, 1, 0)
    return k, np.clip(i, -f - k, 32)


def masked(k, i, f):
    m = tf.where(k + i + f != 0, 1, 0)
    return k * m, i * m, f * m


def check(lab, got, want):
    for n, g, w in zip(('sign', 'integer', 'fractional'), got, want):
        _same(f'{lab} {n}', g, w)


def ranges(kind):
    fbw = _sym('f', lo=-8, hi=8, integral=True)
    if kind == 'negative':
        a = _sym('a', hi=-1, lo=-5000, integral=True)
        b = _sym('b', hi=-1, lo=-5000, integral=True)
    elif kind == 'mixed':
        a = _sym('a', hi=-1, lo=-5000, integral=True)
        b = _sym('b', lo=0, hi=5000, integral=True)
    else:
        a = _sym('a', lo=0, hi=5000, integral=True)
        b = _sym('b', lo=0, hi=5000, integral=True)
    _assume(b >= a)
    return fbw, a, b


def recorded(kind):
    fbw, a, b = ranges(kind)
    q, f = setup(fbw, a, b)
    got = q.get_bits_exact()
    k, i = want_ki(f, a * 2.**-f, b * 2.**-f)
    check('recorded', got, masked(k, i, f))


def recorded_fraction():
    # unrounded bitwidths are rounded first
    fbw = _sym('fbw', lo=-8, hi=8)
    f = tf.round(fbw)
    q = mk((0,), (None, 3))
    _setvar(q.fbw, fbw)
    lo, hi = _sym('a', hi=-1, lo=-500, integral=True) * 2.**-f, _sym('b', lo=1, hi=500, integral=True) * 2.**-f
    _setvar(q._min, lo)
    _setvar(q._max, hi)
    k, i = want_ki(f, lo, hi)
    check('recorded', q.get_bits_exact(), masked(k, i, f))


def pos_only(kind):
    fbw, a, b = ranges(kind)
    q, f = setup(fbw, a, b)
    p = tf.maximum(b * 2.**-f, 0.)
    i = np.minimum(np.maximum(np.floor(np.log2(p)) + 1, -f), 32)
    check('pos_only', q.get_bits_exact(pos_only=True), masked(0, i, f))


def ob_recorded_range():
    _case('mixed', recorded, 'mixed')
    _case('non-negative', recorded, 'positive')
    _case('negative', recorded, 'negative')
    _case('fractional bitwidth', recorded_fraction)


def ob_pos_only():
    _case('mixed', pos_only, 'mixed')
    _case('non-negative', pos_only, 'positive')
    _case('negative', pos_only, 'negative')


def ob_refused_when_untraced():
    for f in (0., 3., -2.):
        q = mk((0,), (None, 3))
        _setvar(q.fbw, f)
        _raises(f'fresh f={f}', lambda: q.get_bits_exact())
        _raises(f'fresh pos_only f={f}', lambda: q.get_bits_exact(pos_only=True))
        _setvar(q._min, -1.)
        _setvar(q._max, 2.)
        _raises(f'traced f={f}', lambda: q.get_bits_exact(), False)
        q.minmax_reg_reset()
        _raises(f'reset f={f}', lambda: q.get_bits_exact())
    q = mk((0,), (None, 3))
    lo, hi = _sym('lo', lo=-50, hi=50, integral=True), _sym('hi', lo=-50, hi=50, integral=True)
    _setvar(q.fbw, 0.)
    _setvar(q._min, lo)
    _setvar(q._max, hi)
    _raises('symbolic range', lambda: q.get_bits_exact(), not tf.reduce_all(hi >= lo))
    q = mk(None, (3, 4), rec=False)
    _raises('not recording and no reference', lambda: q.get_bits_exact())


def exact_ref(rec, sign):
    """entries n*2^-f on the grid"""
    q = mk(None, (3, 4), rec=rec)
    f = _sym('f', lo=-8, hi=8, integral=True)
    n = sign * _sym('n', lo=1, hi=5000, integral=True, shape=(3, 4))
    y = n * 2.**-f
    _setvar(q.fbw, f)
    k, i, ff = q.get_bits_exact(y * np.ones((3, 4)))
    _same('sign', k, 1 if sign < 0 else 0)
    _same('integer', i, np.floor(np.log2(np.abs(y))) + 1 if sign else 0)
    _same('fractional', ff, f - _trailing_zeros(np.abs(n)) if sign else 0)


def exact_any(rec):
    q = mk(None, (3, 4), rec=rec)
    f = _sym('f', lo=-8, hi=8, integral=True)
    _setvar(q.fbw, f)
    w = _sym('w', shape=(3, 4))
    y = np.floor(w * 2.**f + 0.5) / 2.**f
    got = q.get_bits_exact(w)
    want = q.get_bits_exact(y)
    for a, g, v in zip(('sign', 'integer', 'fractional'), got, want):
        _same(f'{a} is that of the quantized value', g, v)


def ob_reference_entries():
    for rec in (False, True):
        for s in (1, -1, 0):
            _case(f'recording={rec} sign={s}', exact_ref, rec, s)
        _case(f'recording={rec}', exact_any, rec)


def ob_approximate_bits():
    fbw = _sym('fbw', shape=(1, 3))
    q = mk((0,), (None, 3))
    _setvar(q.fbw, fbw)
    lo, hi = _sym('lo', shape=(1, 3)), _sym('hi', shape=(1, 3))
    _setvar(q._min, lo)
    _setvar(q._max, hi)
    _assume(hi >= lo)
    i, f, k = q.get_bits()
    r = tf.maximum(tf.abs(lo), tf.abs(hi))
    _same('fractional', f, tf.round(fbw))
    _same('sign', k, tf.where(lo < 0, 1., 0.))
    _same('integer', i, tf.floor(tf.math.log(r) / np.log(2)) + 1)
    i, f, k = q.get_bits(pos_only=True)
    _same('fractional pos', f, tf.round(fbw))
    _same('sign pos', k, 0.)
    _same('integer pos', i, tf.floor(tf.math.log(tf.maximum(hi, 0.)) / np.log(2)) + 1)


def approx_ref(skip, shape, ax, quantized):
    q = mk(skip, shape, rec=False)
    fbw = _sym('fbw', shape=tuple(_shape_of(q.fbw)))
    _setvar(q.fbw, fbw)
    x = _sym('w', shape=shape)
    i, f, k = q.get_bits(x, quantized=True) if quantized else q.get_bits(x)
    y = x if quantized else tf.floor(x * 2.**tf.round(fbw) + 0.5) / 2.**tf.round(fbw)
    wi = tf.floor(tf.math.log(tf.abs(y)) / np.log(2)) + 1
    wk = tf.where(y < 0, 1., 0.)
    if ax is not None:
        wi = tf.reduce_max(wi, axis=ax, keepdims=True)
        wk = tf.reduce_max(wk, axis=ax, keepdims=True)
    _same('fractional', f, tf.round(fbw))
    _same('sign', k, wk)
    _same('integer', i, wi)


def ob_approximate_bits_of_reference():
    for qd in (True, False):
        _case(f'element-wise {qd}', approx_ref, None, (3, 4), None, qd)
        _case(f'all {qd}', approx_ref, 'all', (3, 4), (0, 1), qd)
        _case(f'except_last {qd}', approx_ref, 'except_last', (3, 5, 4), (0, 1), qd)
        _case(f'(1,) {qd}', approx_ref, (1,), (3, 5, 4), (1,), qd)


def approx_grad():
    _gradmode(True)
    q = mk((0,), (None, 3))
    fbw = _sym('fbw', shape=(1, 3))
    _setvar(q.fbw, fbw)
    _setvar(q._min, _sym('lo', shape=(1, 3)))
    _setvar(q._max, _sym('hi', shape=(1, 3)))
    i, f, k = q.get_bits()
    _same('gradient of the fractional bits', _grad(f, fbw), 1)


def ob_differentiable():
    _case('recorded', approx_grad)
