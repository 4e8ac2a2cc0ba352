import numpy as np
import tensorflow as tf
from tensorflow import keras
from HGQ.layers.batchnorm_base import HBatchNormalization


def kconf(**kw):
    d = dict(init_bw=3., skip_dims=None, rnd_strategy='standard_round', exact_q_value=True, dtype=None, bw_clip=(-23, 23), trainable=True, regularizer=None)
    d.update(kw)
    return d


def aconf(**kw):
    d = kconf(skip_dims=(0,), minmax_record=True, init_bw=5.)
    d.update(kw)
    return d


def rnd(x, f, floor=False):
    s = 2.**tf.round(f)
    return tf.floor(x * s) / s if floor else tf.floor(x * s + 0.5) / s


def mk(shape, axis, strategy, adapt=False, **opts):
    mom, eps = _sym('momentum', lo=0, hi=1), _sym('eps', lo=0, los=True)
    l = HBatchNormalization(axis=axis, momentum=mom, epsilon=eps, do_adapt_kernel_bits=adapt, kq_conf=kconf(), paq_conf=aconf(rnd_strategy=strategy), **opts)
    l.build(shape)
    kf = _sym('kf', lo=-20, hi=20, shape=tuple(_shape_of(l.kq.fbw)))
    _setvar(l.kq.fbw, kf)
    af = _sym('af', lo=-20, hi=20, shape=tuple(_shape_of(l.paq.fbw)))
    _setvar(l.paq.fbw, af)
    for n in ('bn_beta', 'bn_gamma', 'moving_mean'):
        v = getattr(l, n)
        _setvar(v, _sym(n, shape=tuple(_shape_of(v))))
    _setvar(l.moving_variance, _sym('moving_variance', lo=0, shape=tuple(_shape_of(l.moving_variance))))
    return l, kf, af, mom, eps


def case(shape, axis, strategy='standard_round', **opts):
    rank = len(shape)
    ax = [a % rank for a in (axis if isinstance(axis, (list, tuple)) else [axis])]
    red = [i for i in range(rank) if i not in ax]
    fl = strategy == 'floor'
    l, kf, af, mom, eps = mk(shape, axis, strategy, **opts)
    want_shape = tuple([shape[i] if i in ax else 1 for i in range(rank)])
    for n in ('bn_beta', 'bn_gamma', 'moving_mean', 'moving_variance'):
        _same(f'one {n} per feature', tuple(_shape_of(getattr(l, n))), want_shape)
    _same('one factor per feature', tuple(_shape_of(l.kq.fbw)), want_shape)
    beta, gamma, mm, mv = _copyval(l.bn_beta), _copyval(l.bn_gamma), _copyval(l.moving_mean), _copyval(l.moving_variance)
    x = _sym('x', shape=shape)

    def out(mean, var):
        k = gamma / tf.sqrt(var + eps)
        return rnd(rnd(k, kf) * x + rnd(beta - mean * k, af, fl), af, fl)
    for t in (False, None):
        _same(f'inference value {t}', l(x, training=t), out(mm, mv))
        _same(f'inference keeps mean {t}', l.moving_mean, mm)
        _same(f'inference keeps variance {t}', l.moving_variance, mv)
        _same(f'inference keeps beta {t}', l.bn_beta, beta)
        _same(f'inference keeps gamma {t}', l.bn_gamma, gamma)
    y = l(x, training=True)
    mean = tf.reduce_mean(x, axis=red, keepdims=True)
    var = tf.math.reduce_variance(x, axis=red, keepdims=True)
    _same('training value', y, out(mean, var))
    _same('moving mean', l.moving_mean, mom * mm + (1 - mom) * mean)
    _same('moving variance', l.moving_variance, mom * mv + (1 - mom) * var)
    _same('training keeps beta', l.bn_beta, beta)
    _same('training keeps gamma', l.bn_gamma, gamma)
    y = l(x, training=False)
    _same('inference after a step', y, out(mom * mm + (1 - mom) * mean, mom * mv + (1 - mom) * var))


SHAPES = (((None, 7), -1), ((None, 7), 1), ((None, 5, 4), -1), ((None, 5, 4), 2), ((None, 6, 5, 4), -1), ((None, 5, 4), 1), ((None, 6, 5, 4), 1), ((None, 6, 5, 4), (1, 3)), ((None, 6, 5, 4), [2, 3]))


def ob_values():
    """normalisation"""
    for s, a in SHAPES:
        for st in ('standard_round', 'floor'):
            _case(f'{len(s)}d axis {a} {st}', case, s, a, st)


def trained(s):
    l = mk(s, -1, 'floor')[0]
    for v in (l.bn_beta, l.bn_gamma, l.kq.fbw, l.paq.fbw):
        _same('trained', v.trainable, True)
    for v in (l.moving_mean, l.moving_variance):
        _same('not trained', v.trainable, False)


def recorded(s):
    l, kf, af, mom, eps = mk(s, -1, 'standard_round')
    l.reset_minmax()
    x = _sym('x', shape=s)
    lo, hi = _copyval(l.paq._min), _copyval(l.paq._max)
    z = l(x, training=False)
    _same('not recorded at inference', (l.paq._min, l.paq._max), (lo, hi))
    l.record_minmax = True
    z = l(x, training=False)
    _same('recorded minimum', l.paq._min, tf.minimum(lo, tf.reduce_min(z, axis=0, keepdims=True)))
    _same('recorded maximum', l.paq._max, tf.maximum(hi, tf.reduce_max(z, axis=0, keepdims=True)))


def ob_state():
    """weights and range"""
    for s in ((None, 7), (None, 5, 4)):
        _case(f'trained {len(s)}', trained, s)
        _case(f'recorded {len(s)}', recorded, s)
