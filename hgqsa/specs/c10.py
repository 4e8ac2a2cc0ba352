import numpy as np
import tensorflow as tf
from tensorflow import keras
from HGQ.layers import HDense, HQuantize, HConv2D, HConv1D, HDenseBatchNorm, HConv1DBatchNorm, HConv2DBatchNorm, HActivation, HAdd
from HGQ.layers import PMaxPooling2D, PFlatten, PReshape, Signature
from HGQ.proxy.convert import to_keras_layer, copy_fused_weights, get_weight


def kconf(**kw):
    d = dict(init_bw=3., skip_dims=None, rnd_strategy='standard_round', exact_q_value=True, dtype=None, bw_clip=(-23, 23), trainable=True, regularizer=None)
    d.update(kw)
    return d


def aconf(**kw):
    d = kconf(skip_dims=(0,), minmax_record=True, init_bw=5.)
    d.update(kw)
    return d


def rnd(x, f, floor):
    s = 2.**tf.round(f)
    return tf.floor(x * s) / s if floor else tf.floor(x * s + 0.5) / s


def bits(l):
    kf = _sym('kf', lo=-20, hi=20, shape=tuple(_shape_of(l.kq.fbw)))
    _setvar(l.kq.fbw, kf)
    af = _sym('af', lo=-20, hi=20, shape=tuple(_shape_of(l.paq.fbw)))
    _setvar(l.paq.fbw, af)
    _setvar(l.paq._min, _sym('mn', shape=tuple(_shape_of(l.paq.fbw))))
    _setvar(l.paq._max, _sym('mx', shape=tuple(_shape_of(l.paq.fbw))))
    return kf, af


def fused(l, bn):
    if not bn:
        return l.kernel, l.bias
    g = l.bn_gamma * tf.math.rsqrt(l.moving_variance + l.epsilon)
    return l.kernel * g, l.bias + l.bn_beta - l.moving_mean * g


def nonch(rank, first):
    return ([0] + list(range(2, rank))) if first else list(range(rank - 1))


def want_bias(l, bn, af, floor, covered, rank, first):
    ax = nonch(rank, first)
    f = tf.reduce_max(af, axis=ax)
    b = rnd(fused(l, bn)[1], f, floor)
    if covered and not floor:
        b = b + 0.5 / 2.**tf.round(f)
    live = tf.reduce_max(l.act_bw, axis=ax) > 0
    return tf.where(live, b, 0.)


def case(mkl, shape, strategy, skip, covered, bn=False, use_bias=True, first=False, kstrategy='standard_round', activation='relu', **opts):
    kw = dict(opts)
    if not bn:
        kw['use_bias'] = use_bias
    l = mkl(activation=activation, kq_conf=kconf(rnd_strategy=kstrategy), paq_conf=aconf(rnd_strategy=strategy, skip_dims=skip), **kw)
    inp = keras.layers.Input(shape=shape[1:])
    l(inp)
    kf, af = bits(l)
    fl = strategy == 'floor' or (strategy == 'auto' and not covered)
    k = rnd(fused(l, bn)[0], kf, kstrategy == 'floor')
    _same('quantized kernel', l.fused_qkernel, k)
    if use_bias:
        b = want_bias(l, bn, af, fl, covered, len(shape), first)
        _same('quantized bias', l.fused_qbias, b)
    n = to_keras_layer(l)
    _same('deployed kernel', n.kernel, k)
    if use_bias:
        _same('deployed bias', n.bias, b)
    else:
        _is('no bias', n.bias, None)
    _same('has bias', n.use_bias, use_bias)
    _same('activation', n.activation is keras.activations.linear, True)
    _same('name', n.name, l.name)
    _same('proxy is a plain layer', _clsname(n), {'HDense': 'Dense', 'HDenseBatchNorm': 'Dense', 'HConv1D': 'Conv1D', 'HConv1DBatchNorm': 'Conv1D', 'HConv2D': 'Conv2D', 'HConv2DBatchNorm': 'Conv2D'}[_clsname(l)])
    for a in ('units',) if len(_shape_of(l.kernel)) == 2 else ('filters', 'kernel_size', 'strides', 'padding', 'data_format', 'dilation_rate', 'groups'):
        _same('same ' + a, getattr(n, a), getattr(l, a))


D = lambda **k: HDense(4, **k)
DB = lambda **k: HDenseBatchNorm(4, **k)
C1 = lambda **k: HConv1D(4, 3, **k)
C1B = lambda **k: HConv1DBatchNorm(4, 3, **k)
C2 = lambda **k: HConv2D(4, 3, **k)
C2B = lambda **k: HConv2DBatchNorm(4, 3, **k)


def ob_dense():
    for s in ('standard_round', 'floor', 'auto', 'stochastic_round', 'fast_uniform_noise_injection', 'uniform_noise_injection'):
        _case(f'{s}', case, D, (None, 7), s, (0,), True)
        _case(f'{s} layer-wise', case, D, (None, 7), s, 'all', True)
        _case(f'{s} no bias', case, D, (None, 7), s, (0,), False, False, False)
        _case(f'{s} 3d element-wise', case, D, (None, 5, 7), s, (0,), False)
        _case(f'{s} 3d channel-wise', case, D, (None, 5, 7), s, (0, 1), True)
        _case(f'{s} 3d position-wise', case, D, (None, 4, 7), s, (0, 2), False)
    _case('linear', case, D, (None, 7), 'standard_round', (0,), True, activation=None)
    _case('kernel floor', case, D, (None, 7), 'standard_round', (0,), True, kstrategy='floor')
    _case('kernel stochastic', case, D, (None, 7), 'standard_round', (0,), True, kstrategy='stochastic_round')


def ob_dense_batchnorm():
    for s in ('standard_round', 'floor', 'auto'):
        _case(f'{s}', case, DB, (None, 7), s, (0,), True, True)
        _case(f'{s} 3d element-wise', case, DB, (None, 5, 7), s, (0,), False, True)
        _case(f'{s} 3d channel-wise', case, DB, (None, 5, 7), s, (0, 1), True, True)


def ob_conv1d():
    for s in ('standard_round', 'floor', 'auto'):
        _case(f'{s} element-wise', case, C1, (None, 9, 2), s, (0,), False)
        _case(f'{s} channel-wise', case, C1, (None, 9, 2), s, (0, 1), True)
        _case(f'{s} batch norm', case, C1B, (None, 9, 2), s, (0, 1), True, True)
    _case('options', case, C1, (None, 9, 4), 'auto', (0, 1), True, strides=2, padding='same', groups=2)
    _case('dilated', case, C1, (None, 9, 4), 'auto', (0, 1), True, dilation_rate=2, padding='causal')
    _case('channels_first', case, C1, (None, 2, 9), 'auto', (0, 2), True, first=True, data_format='channels_first')


def ob_conv2d():
    for s in ('standard_round', 'floor', 'auto', 'stochastic_round'):
        _case(f'{s} element-wise', case, C2, (None, 9, 8, 2), s, (0,), False)
        _case(f'{s} channel-wise', case, C2, (None, 9, 8, 2), s, (0, 1, 2), True)
        _case(f'{s} column-wise', case, C2, (None, 9, 8, 2), s, (0, 1), False)
        _case(f'{s} layer-wise', case, C2, (None, 9, 8, 2), s, 'all', True)
        _case(f'{s} batch norm', case, C2B, (None, 9, 8, 2), s, (0, 1, 2), True, True)
    _case('options', case, C2, (None, 9, 8, 4), 'standard_round', (0, 1, 2), True, strides=(2, 1), padding='same', groups=2)
    _case('dilated', case, C2, (None, 9, 8, 4), 'standard_round', (0,), False, dilation_rate=(2, 3))
    for s in ('standard_round', 'floor', 'auto'):
        _case(f'{s} channels_first channel-wise', case, C2, (None, 2, 9, 8), s, (0, 2, 3), True, first=True, data_format='channels_first')
        _case(f'{s} channels_first element-wise', case, C2, (None, 2, 9, 8), s, (0,), False, first=True, data_format='channels_first')
        _case(f'{s} channels_first no bias', case, C2, (None, 2, 9, 8), s, (0,), False, use_bias=False, first=True, data_format='channels_first')


class W:
    def __init__(self, name, weights):
        self.name = name
        self.weights = weights


def weight(name):
    return tf.Variable(_sym(name.replace(':', '_').replace('/', '_')), name=name)


def ob_weight_lookup():
    a, b, c = weight('dense/alpha'), weight('dense/moving_mean'), weight('dense/extra')
    l = W('dense', [a, b, c])
    _is('plain', get_weight(l, 'moving_mean'), b)
    _is('indexed', get_weight(l, 'moving_mean:0'), b)
    _is('with layer name', get_weight(l, 'dense_1/alpha:0'), a)
    _is('nested scope', get_weight(l, 'model/dense_1/extra:0'), c)
    _is('nested scope, no index', get_weight(l, 'model/dense_1/extra'), c)
    _is('missing', get_weight(l, 'gamma:0'), None)


def ob_copy_plain():
    s = W('dense', [])
    s.kernel, s.bias, al = weight('dense/kernel'), weight('dense/bias'), weight('dense/alpha')
    s.weights = [al, s.bias, s.kernel]
    d = W('dense', [])
    d.kernel, d.bias, da, dg = tf.Variable(_sym('dk'), name='other/kernel'), tf.Variable(_sym('db'), name='other/bias'), tf.Variable(_sym('da'), name='other/alpha'), tf.Variable(_sym('dg'), name='other/gamma')
    d.weights = [d.kernel, d.bias, da, dg]
    copy_fused_weights(s, d)
    _same('kernel', d.kernel, _sym('dense_kernel'))
    _same('bias', d.bias, _sym('dense_bias'))
    _same('other weight', da, _sym('dense_alpha'))
    _same('no counterpart', dg, _sym('dg'))
    _same('source kernel kept', s.kernel, _sym('dense_kernel'))
    _same('source bias kept', s.bias, _sym('dense_bias'))


def ob_copy_fused():
    s = W('dense', [])
    s.kernel, s.bias, al = weight('dense/kernel'), weight('dense/bias'), weight('dense/alpha')
    s.fused_qkernel, s.fused_qbias = _sym('qk'), _sym('qb')
    s.weights = [s.kernel, s.bias, al]
    d = W('dense', [])
    d.kernel, d.bias, da = tf.Variable(_sym('dk'), name='other/kernel'), tf.Variable(_sym('db'), name='other/bias'), tf.Variable(_sym('da'), name='other/alpha')
    d.weights = [da, d.kernel, d.bias]
    copy_fused_weights(s, d)
    _same('kernel', d.kernel, _sym('qk'))
    _same('bias', d.bias, _sym('qb'))
    _same('other weight', da, _sym('dense_alpha'))


def ob_copy_partial():
    s = W('x', [])
    s.kernel, s.bias = weight('x/kernel'), None
    s.weights = [s.kernel]
    d = W('x', [])
    d.kernel, d.bias = tf.Variable(_sym('dk'), name='x/kernel'), None
    d.weights = [d.kernel]
    copy_fused_weights(s, d)
    _same('kernel', d.kernel, _sym('x_kernel'))
    e, f = W('e', []), W('f', [])
    v, w = weight('e/scale'), tf.Variable(_sym('ws'), name='f/scale')
    e.weights, f.weights = [v], [w]
    copy_fused_weights(e, f)
    _same('no kernel, no bias', w, _sym('e_scale'))


def ob_no_plain_counterpart():
    q = HQuantize(paq_conf=aconf())
    q(keras.layers.Input(shape=(4,)))
    _raises('HQuantize', lambda: to_keras_layer(q))
    s = Signature(1, 8, 3)
    s(keras.layers.Input(shape=(4,)))
    _raises('Signature', lambda: to_keras_layer(s))
    d = keras.layers.Dense(3)
    _raises('unknown class', lambda: to_keras_layer(d))


def ob_activation():
    for a in ('tanh', 'sigmoid', 'relu'):
        l = HActivation(a, paq_conf=aconf())
        l(keras.layers.Input(shape=(4,)))
        n = to_keras_layer(l)
        _is(f'{a}', n.activation, l.activation)
        _same(f'{a} class', _clsname(n), 'Activation')
        _same(f'{a} name', n.name, l.name)
    h = lambda t: t * 3.
    l = HActivation(h, paq_conf=aconf())
    l(keras.layers.Input(shape=(4,)))
    x = _sym('x', shape=(None, 4))
    _same('custom function', to_keras_layer(l)(x), x * 3.)


def ob_add():
    l = HAdd(paq_conf=aconf())
    l([keras.layers.Input(shape=(4,)), keras.layers.Input(shape=(4,))])
    n = to_keras_layer(l)
    _same('class', _clsname(n), 'Add')
    _same('name', n.name, l.name)
