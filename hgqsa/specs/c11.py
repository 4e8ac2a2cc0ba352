import numpy as np
import tensorflow as tf
from tensorflow import keras
from HGQ.layers import HDenseBatchNorm, HConv1DBatchNorm, HConv2DBatchNorm


def kconf(**kw):
    d = dict(init_bw=3., skip_dims=None, rnd_strategy='standard_round', exact_q_value=True, dtype=None, bw_clip=(-23, 23), trainable=True, regularizer=None)
    d.update(kw)
    return d


def aconf(**kw):
    d = kconf(skip_dims=(0,), minmax_record=True, init_bw=5.)
    d.update(kw)
    return d


def rnd(x, f, floor=False):
    s = 2.**tf.round(f)
    return tf.floor(x * s) / s if floor else tf.floor(x * s + 0.5) / s


def chmax(af, rank, first):
    ax = ([0] + list(range(2, rank))) if first else list(range(rank - 1))
    return tf.reduce_max(af, axis=ax)


def mk(kind, shape, center, scale, use_bias, activation='relu', strategy='standard_round', **opts):
    mom, eps = _sym('momentum', lo=0, hi=1), _sym('eps', lo=0, los=True)
    kw = dict(momentum=mom, epsilon=eps, center=center, scale=scale, use_bias=use_bias, activation=activation, do_adapt_kernel_bits=False, kq_conf=kconf(), paq_conf=aconf(rnd_strategy=strategy), **opts)
    if kind == 'dense':
        l = HDenseBatchNorm(4, **kw)
    elif kind == 'conv1d':
        l = HConv1DBatchNorm(4, 3, **kw)
    else:
        l = HConv2DBatchNorm(4, (3, 2), **kw)
    l.build(shape)
    _setvar(l.kernel, _sym('k', shape=tuple(_shape_of(l.kernel))))
    if use_bias:
        _setvar(l.bias, _sym('b', shape=(4,)))
    kf = _sym('kf', lo=-20, hi=20, shape=tuple(_shape_of(l.kq.fbw)))
    _setvar(l.kq.fbw, kf)
    af = _sym('af', lo=-20, hi=20, shape=tuple(_shape_of(l.paq.fbw)))
    _setvar(l.paq.fbw, af)
    if center:
        _setvar(l.bn_beta, _sym('beta', shape=(4,)))
        _setvar(l.moving_mean, _sym('mm', shape=(4,)))
    if scale:
        _setvar(l.bn_gamma, _sym('gamma', shape=(4,)))
        _setvar(l.moving_variance, _sym('mv', lo=0, shape=(4,)))
    return l, kf, af, mom, eps


def oper(kind, x, k, opts):
    if kind == 'dense':
        return tf.matmul(x, k)
    rank = 1 if kind == 'conv1d' else 2
    first = opts.get('data_format') == 'channels_first'
    tup = lambda v: [v] * rank if not isinstance(v, (tuple, list)) else list(v)
    df = {1: ('NWC', 'NCW'), 2: ('NHWC', 'NCHW')}[rank][1 if first else 0]
    return tf.nn.convolution(x, k, strides=tup(opts.get('strides', 1)), padding=opts.get('padding', 'valid').upper(), dilations=tup(opts.get('dilation_rate', 1)), data_format=df)


def addb(kind, z, b, opts):
    if kind == 'dense':
        return tf.nn.bias_add(z, b)
    first = opts.get('data_format') == 'channels_first'
    df = {'conv1d': ('NWC', 'NCW'), 'conv2d': ('NHWC', 'NCHW')}[kind][1 if first else 0]
    return tf.nn.bias_add(z, b, data_format=df)


def act(a, z):
    return tf.nn.relu(z) if a == 'relu' else z


def case(kind, shape, center, scale, use_bias, activation='relu', strategy='standard_round', **opts):
    first = opts.get('data_format') == 'channels_first'
    rank = len(shape)
    red = ([0] + list(range(2, rank))) if first else list(range(rank - 1))
    fl = strategy == 'floor'
    k = _sym('k', shape=())
    center = center and use_bias

    # inference
    l, kf, af, mom, eps = mk(kind, shape, center, scale, use_bias, activation, strategy, **opts)
    k, b = _copyval(l.kernel), _copyval(l.bias) if use_bias else None
    beta, mm = (_copyval(l.bn_beta), _copyval(l.moving_mean)) if center else (None, None)
    gamma, mv = (_copyval(l.bn_gamma), _copyval(l.moving_variance)) if scale else (None, None)
    s = gamma / tf.sqrt(mv + eps) if scale else 1.
    fk = k * s
    _same('folded kernel', l.fused_kernel, fk)
    if use_bias:
        fb = b + beta - mm * s if center else b
        _same('folded bias', l.fused_bias, fb)
    x = _sym('x', shape=shape)
    z = oper(kind, x, rnd(fk, kf), opts)
    if use_bias:
        z = addb(kind, z, rnd(fb, chmax(af, rank, first), fl), opts)
    want = act(activation, rnd(z, af, fl))
    for t in (False, None):
        _same(f'inference value {t}', l(x, training=t), want)
        if center:
            _same(f'inference keeps mean {t}', l.moving_mean, mm)
            _same(f'inference keeps beta {t}', l.bn_beta, beta)
        if scale:
            _same(f'inference keeps variance {t}', l.moving_variance, mv)
            _same(f'inference keeps gamma {t}', l.bn_gamma, gamma)

    # one training step from an arbitrary state
    y = l(x, training=True)
    z0 = oper(kind, x, k if scale else rnd(k, kf), opts)
    mean = tf.reduce_mean(z0, axis=red)
    if use_bias:
        mean = mean + b
    var = tf.math.reduce_variance(z0, axis=red)
    s = gamma / tf.sqrt(var + eps) if scale else 1.
    z = oper(kind, x, rnd(k * s, kf), opts)
    if use_bias:
        tb = b + beta - mean * s if center else b
        z = addb(kind, z, rnd(tb, chmax(af, rank, first), fl), opts)
    _same('training value', y, act(activation, rnd(z, af, fl)))
    if center:
        _same('moving mean', l.moving_mean, mom * mm + (1 - mom) * mean)
        _same('training keeps beta', l.bn_beta, beta)
    if scale:
        _same('moving variance', l.moving_variance, mom * mv + (1 - mom) * var)
        _same('training keeps gamma', l.bn_gamma, gamma)
    _same('training keeps kernel', l.kernel, k)
    if use_bias:
        _same('training keeps bias', l.bias, b)


def ob_dense():
    for center in (True, False):
        for scale in (True, False):
            _case(f'center={center} scale={scale}', case, 'dense', (None, 7), center, scale, True)
            _case(f'3d center={center} scale={scale}', case, 'dense', (None, 5, 7), center, scale, True)
    _case('no bias', case, 'dense', (None, 7), True, True, False)
    _case('no bias, no scale', case, 'dense', (None, 7), True, False, False)
    _case('linear', case, 'dense', (None, 7), True, True, True, None)
    _case('floor', case, 'dense', (None, 7), True, True, True, 'relu', 'floor')


def ob_conv1d():
    for center in (True, False):
        for scale in (True, False):
            _case(f'center={center} scale={scale}', case, 'conv1d', (None, 9, 2), center, scale, True)
    _case('same, strides', case, 'conv1d', (None, 9, 2), True, True, True, padding='same', strides=2)
    _case('no bias', case, 'conv1d', (None, 9, 2), True, True, False)
    _case('channels_first', case, 'conv1d', (None, 2, 9), True, True, True, data_format='channels_first')


def ob_conv2d():
    for center in (True, False):
        for scale in (True, False):
            _case(f'center={center} scale={scale}', case, 'conv2d', (None, 9, 8, 2), center, scale, True)
            _case(f'channels_first center={center} scale={scale}', case, 'conv2d', (None, 2, 9, 8), center, scale, True, data_format='channels_first')
    _case('options', case, 'conv2d', (None, 9, 8, 2), True, True, True, padding='same', strides=(2, 1))
    _case('dilation', case, 'conv2d', (None, 9, 8, 2), True, True, True, dilation_rate=(2, 3))
    _case('no bias', case, 'conv2d', (None, 9, 8, 2), True, True, False)
    _case('floor', case, 'conv2d', (None, 9, 8, 2), True, True, True, None, 'floor')


def state(kind, shape, **opts):
    l, kf, af, mom, eps = mk(kind, shape, True, True, True, **opts)
    _same('beta trainable', l.bn_beta.trainable, True)
    _same('gamma trainable', l.bn_gamma.trainable, True)
    _same('mean not trainable', l.moving_mean.trainable, False)
    _same('variance not trainable', l.moving_variance.trainable, False)
    for v in (l.bn_beta, l.bn_gamma, l.moving_mean, l.moving_variance):
        _same('one entry per channel', tuple(_shape_of(v)), (4,))


def ob_state():
    _case('dense', state, 'dense', (None, 7))
    _case('dense 3d', state, 'dense', (None, 5, 7))
    _case('conv1d', state, 'conv1d', (None, 9, 2))
    _case('conv2d', state, 'conv2d', (None, 9, 8, 2))
    _case('conv2d channels_first', state, 'conv2d', (None, 2, 9, 8), data_format='channels_first')


def ob_defaults():
    """keras' batch normalisation defaults"""
    for l in (HDenseBatchNorm(4), HConv1DBatchNorm(4, 3), HConv2DBatchNorm(4, 3)):
        n = _clsname(l)
        _same(n + ' momentum', l.momentum, 0.99)
        _same(n + ' epsilon', l.epsilon, 1e-3)
        _same(n + ' center', l.center, True)
        _same(n + ' scale', l.scale, True)
        _same(n + ' gamma initializer', l.gamma_initializer, keras.initializers.get('ones'))
        _same(n + ' beta initializer', l.beta_initializer, keras.initializers.get('zeros'))
        _same(n + ' mean initializer', l.moving_mean_initializer, keras.initializers.get('zeros'))
        _same(n + ' variance initializer', l.moving_variance_initializer, keras.initializers.get('ones'))
