import numpy as np
import tensorflow as tf
from HGQ.layers import HDense, HQuantize, HConv2D, HConv1D, HDenseBatchNorm, HConv1DBatchNorm, HConv2DBatchNorm, HActivation, HAdd


def kconf(**kw):
    d = dict(init_bw=3., skip_dims=None, rnd_strategy='standard_round', exact_q_value=True, dtype=None, bw_clip=(-23, 23), trainable=True, regularizer=None)
    d.update(kw)
    return d


def aconf(**kw):
    d = kconf(skip_dims=(0,), minmax_record=True, init_bw=5.)
    d.update(kw)
    return d


def rnd(x, f, floor):
    s = 2.**tf.round(f)
    return tf.floor(x * s) / s if floor else tf.floor(x * s + 0.5) / s


def bits(l):
    """give the quantizers unknown bitwidths (inside the clip range)"""
    kf = None
    if l._has_kernel:
        kf = _sym('kf', lo=-20, hi=20, shape=tuple(_shape_of(l.kq.fbw)))
        _setvar(l.kq.fbw, kf)
    af = _sym('af', lo=-20, hi=20, shape=tuple(_shape_of(l.paq.fbw)))
    _setvar(l.paq.fbw, af)
    return kf, af


def channel_max(af, rank, first):
    ax = ([0] + list(range(2, rank))) if first else list(range(rank - 1))
    return tf.reduce_max(af, axis=ax)


def fused(l, bn):
    """the plain layer's kernel and bias, or the batch-norm-folded ones"""
    if not bn:
        return l.kernel, l.bias
    g = l.bn_gamma * tf.math.rsqrt(l.moving_variance + l.epsilon)
    return l.kernel * g, l.bias + l.bn_beta - l.moving_mean * g


def act(a, z):
    return tf.nn.relu(z) if a == 'relu' else z


def dense(cls, shape, activation, strategy, use_bias, bn):
    kw = dict(use_bias=use_bias) if not bn else {}
    l = cls(4, activation=activation, kq_conf=kconf(), paq_conf=aconf(rnd_strategy=strategy), **kw)
    l.build(shape)
    kf, af = bits(l)
    x = _sym('x', shape=shape)
    k, b = fused(l, bn)
    fl = strategy == 'floor'
    z = tf.matmul(x, rnd(k, kf, False))
    if use_bias:
        z = tf.nn.bias_add(z, rnd(b, channel_max(af, len(shape), False), fl))
    want = act(activation, rnd(z, af, fl))
    _same('training=False', l(x, training=False), want)
    _same('training=None', l(x), want)
    _same('recording', l(x, training=False, record_minmax=True), want)


def ob_dense():
    for s in ('standard_round', 'floor', 'stochastic_round', 'fast_uniform_noise_injection'):
        for a in (None, 'relu', 'linear'):
            _case(f'{s} {a}', dense, HDense, (None, 7), a, s, True, False)
        _case(f'{s} no bias', dense, HDense, (None, 7), 'relu', s, False, False)
        _case(f'{s} batch norm', dense, HDenseBatchNorm, (None, 7), 'relu', s, True, True)
    _case('3d input', dense, HDense, (None, 5, 7), 'relu', 'standard_round', True, False)
    _case('3d input batch norm', dense, HDenseBatchNorm, (None, 5, 7), None, 'standard_round', True, True)


def ob_kernel_rounding_strategy():
    for s in ('standard_round', 'floor', 'stochastic_round'):
        l = HDense(4, kq_conf=kconf(rnd_strategy=s), paq_conf=aconf())
        l.build((None, 7))
        kf, af = bits(l)
        x = _sym('x', shape=(None, 7))
        z = tf.nn.bias_add(tf.matmul(x, rnd(l.kernel, kf, s == 'floor')), rnd(l.bias, channel_max(af, 2, False), False))
        _same(s, l(x, training=False), rnd(z, af, False))


def conv(cls, rank, shape, opts, use_bias, bn, strategy='standard_round', activation='relu'):
    kw = dict(opts)
    if not bn:
        kw['use_bias'] = use_bias
    ks = (3, 2)[:rank] if rank > 1 else 3
    l = cls(4, ks, activation=activation, kq_conf=kconf(), paq_conf=aconf(rnd_strategy=strategy), **kw)
    l.build(shape)
    kf, af = bits(l)
    x = _sym('x', shape=shape)
    k, b = fused(l, bn)
    first = opts.get('data_format') == 'channels_first'
    fl = strategy == 'floor'
    df = {1: ('NWC', 'NCW'), 2: ('NHWC', 'NCHW')}[rank][1 if first else 0]
    tup = lambda v: [v] * rank if not isinstance(v, (tuple, list)) else list(v)
    pad = opts.get('padding', 'valid')
    xin = x
    if pad == 'causal':
        left = tup(opts.get('dilation_rate', 1))[0] * (3 - 1)
        xin = tf.pad(x, [[0, 0], [left, 0], [0, 0]])
        pad = 'valid'
    z = tf.nn.convolution(xin, rnd(k, kf, False), strides=tup(opts.get('strides', 1)), padding=pad.upper(), dilations=tup(opts.get('dilation_rate', 1)), data_format=df)
    if use_bias:
        z = tf.nn.bias_add(z, rnd(b, channel_max(af, rank + 2, first), fl), data_format=df)
    want = act(activation, rnd(z, af, fl))
    _same('training=False', l(x, training=False), want)
    _same('training=None', l(x), want)


def ob_conv2d():
    for lab, opts in {'plain': {}, 'strides': dict(strides=(2, 1)), 'same': dict(padding='same'), 'same strides': dict(padding='same', strides=2), 'dilation': dict(dilation_rate=(2, 3)), 'groups': dict(groups=2)}.items():
        _case(lab, conv, HConv2D, 2, (None, 9, 11, 4), opts, True, False)
    _case('no bias', conv, HConv2D, 2, (None, 9, 11, 4), {}, False, False)
    _case('channels_first', conv, HConv2D, 2, (None, 4, 9, 11), dict(data_format='channels_first'), True, False)
    _case('channels_first same', conv, HConv2D, 2, (None, 4, 9, 11), dict(data_format='channels_first', padding='same'), True, False)
    _case('floor', conv, HConv2D, 2, (None, 9, 11, 4), {}, True, False, 'floor')
    _case('stochastic', conv, HConv2D, 2, (None, 9, 11, 4), {}, True, False, 'stochastic_round', None)
    _case('batch norm', conv, HConv2DBatchNorm, 2, (None, 9, 11, 4), {}, True, True)
    _case('batch norm strides', conv, HConv2DBatchNorm, 2, (None, 9, 11, 4), dict(strides=(2, 3), padding='same'), True, True)
    _case('batch norm dilation', conv, HConv2DBatchNorm, 2, (None, 9, 11, 4), dict(dilation_rate=2), True, True)


def ob_conv1d():
    for lab, opts in {'plain': {}, 'strides': dict(strides=2), 'same': dict(padding='same'), 'causal': dict(padding='causal'), 'causal dilation': dict(padding='causal', dilation_rate=2), 'dilation': dict(dilation_rate=2)}.items():
        _case(lab, conv, HConv1D, 1, (None, 9, 4), opts, True, False)
    _case('no bias', conv, HConv1D, 1, (None, 9, 4), {}, False, False)
    _case('channels_first', conv, HConv1D, 1, (None, 4, 9), dict(data_format='channels_first'), True, False)
    _case('floor', conv, HConv1D, 1, (None, 9, 4), {}, True, False, 'floor')
    _case('batch norm', conv, HConv1DBatchNorm, 1, (None, 9, 4), {}, True, True)
    _case('batch norm same', conv, HConv1DBatchNorm, 1, (None, 9, 4), dict(padding='same', strides=2), True, True)


def quantize(strategy, skip):
    l = HQuantize(paq_conf=aconf(rnd_strategy=strategy, skip_dims=skip))
    l.build((None, 3, 4))
    kf, af = bits(l)
    x = _sym('x', shape=(None, 3, 4))
    want = rnd(x, af, strategy in ('floor', 'auto'))
    _same('training=False', l(x, training=False), want)
    _same('training=None', l(x), want)


def ob_quantize():
    for s in ('standard_round', 'floor', 'stochastic_round', 'auto'):
        for k in ('batch', 'all', 'except_last'):
            _case(f'{s} {k}', quantize, s, k)


def activation(a, strategy):
    l = HActivation(a, paq_conf=aconf(rnd_strategy=strategy))
    l.build((None, 4))
    kf, af = bits(l)
    x = _sym('x', shape=(None, 4))
    f = tf.keras.activations.get(a)
    want = rnd(f(x), af, strategy in ('floor', 3))
    _same('training=False', l(x, training=False), want)
    _same('training=None', l(x), want)


def ob_activation():
    for a in ('relu', 'linear', 'tanh', 'sigmoid', 'softmax'):
        for s in ('standard_round', 'floor', 'auto', 'stochastic_round', 3, 0):
            _case(f'{a} {s}', activation, a, s)


def add(n, strategy):
    l = HAdd(paq_conf=aconf(rnd_strategy=strategy))
    l.build([(None, 4)] * n)
    kf, af = bits(l)
    xs = [_sym(f'x{i}', shape=(None, 4)) for i in range(n)]
    s = xs[0]
    for y in xs[1:]:
        s = s + y
    want = rnd(s, af, strategy in ('floor', 'auto'))
    _same('training=False', l(xs, training=False), want)


def ob_add():
    for n in (2, 3):
        for s in ('standard_round', 'floor', 'auto'):
            _case(f'{n} {s}', add, n, s)


def auto(mkl, shape, skip, covered, use_bias=True):
    kw = dict(use_bias=use_bias)
    l = mkl(kq_conf=kconf(), paq_conf=aconf(rnd_strategy='auto', skip_dims=skip), **kw)
    l.build(shape)
    _same('can cover', bool(l.can_bias_cover_rnd), covered)
    _same('strategy', l.paq.rnd_strategy, 0 if covered else 3)
    kf, af = bits(l)
    z = _sym('z', shape=tuple(_shape_of(af)))
    _same('rounding', l.paq(z, training=False), rnd(z, af, not covered))


def ob_auto_rounding():
    d = lambda **k: HDense(4, **k)
    c1 = lambda **k: HConv1D(4, 3, **k)
    c2 = lambda **k: HConv2D(4, 3, **k)
    cf = lambda **k: HConv2D(4, 3, data_format='channels_first', **k)
    db = lambda **k: HDenseBatchNorm(4, **k)
    _case('dense', auto, d, (None, 7), (0,), True)
    _case('dense all', auto, d, (None, 7), 'all', True)
    _case('dense no bias', auto, d, (None, 7), (0,), False, False)
    _case('dense all no bias', auto, d, (None, 7), 'all', False, False)
    _case('dense batch norm', auto, db, (None, 7), (0,), True)
    _case('dense 3d element-wise', auto, d, (None, 5, 7), (0,), False)
    _case('dense 3d channel-wise', auto, d, (None, 5, 7), (0, 1), True)
    _case('dense 3d position-wise', auto, d, (None, 5, 7), (0, 2), False)
    _case('dense 3d square position-wise', auto, d, (None, 4, 7), (0, 2), False)
    _case('conv1d element-wise', auto, c1, (None, 9, 2), (0,), False)
    _case('conv1d channel-wise', auto, c1, (None, 9, 2), (0, 1), True)
    _case('conv1d single position', auto, c1, (None, 3, 2), (0,), True)
    _case('conv2d element-wise', auto, c2, (None, 9, 8, 2), (0,), False)
    _case('conv2d channel-wise', auto, c2, (None, 9, 8, 2), (0, 1, 2), True)
    _case('conv2d all', auto, c2, (None, 9, 8, 2), 'all', True)
    _case('conv2d column-wise', auto, c2, (None, 9, 8, 2), (0, 1), False)
    _case('conv2d channels_first channel-wise', auto, cf, (None, 2, 9, 8), (0, 2, 3), True)
    _case('conv2d channels_first element-wise', auto, cf, (None, 2, 9, 8), (0,), False)
    _case('conv2d channels_first column-wise', auto, cf, (None, 2, 9, 6), (0, 1, 2), False)


def ob_builtin_activation():
    for a in ('relu', 'linear', None):
        _raises(f'HDense {a}', lambda: HDense(4, activation=a), False)
        _raises(f'HConv2D {a}', lambda: HConv2D(4, 3, activation=a), False)
    for a in ('tanh', 'sigmoid', 'softmax', 'elu', 'relu6', 'gelu'):
        _raises(f'HDense {a}', lambda: HDense(4, activation=a))
        _raises(f'HDenseBatchNorm {a}', lambda: HDenseBatchNorm(4, activation=a))
        _raises(f'HConv1D {a}', lambda: HConv1D(4, 3, activation=a))
        _raises(f'HConv2D {a}', lambda: HConv2D(4, 3, activation=a))
        _raises(f'HConv2DBatchNorm {a}', lambda: HConv2DBatchNorm(4, 3, activation=a))
        _raises(f'HActivation {a}', lambda: HActivation(a), False)
    for a in (tf.keras.activations.tanh, tf.keras.activations.sigmoid, tf.keras.activations.softmax):
        _raises(f'HDense function {a}', lambda: HDense(4, activation=a))
    _raises('HDense function relu', lambda: HDense(4, activation=tf.keras.activations.relu), False)
    _raises('HDense function linear', lambda: HDense(4, activation=tf.keras.activations.linear), False)
