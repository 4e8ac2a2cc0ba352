import numpy as np
import tensorflow as tf
from tensorflow import keras
from HGQ.layers import HDense, HQuantize, HConv2D, HConv1D, HDenseBatchNorm, HConv1DBatchNorm, HConv2DBatchNorm, HActivation, HAdd, Signature
from HGQ.proxy.convert import ProxyLayerXFormer, to_proxy_model
from HGQ.proxy.fixed_point_quantizer import FixedPointQuantizer


def kconf(**kw):
    d = dict(init_bw=3., skip_dims=None, rnd_strategy='standard_round', exact_q_value=True, dtype=None, bw_clip=(-23, 23), trainable=True, regularizer=None)
    d.update(kw)
    return d


def aconf(**kw):
    d = kconf(skip_dims=(0,), minmax_record=True, init_bw=5.)
    d.update(kw)
    return d


def fake_bits(l):
    """the derived bits are the subject of C08: here they are unknowns, one set for the full and one for the non-negative range"""
    sh = tuple(_shape_of(l.paq.fbw))
    kif = lambda p: (_sym(p + 'k', bit=True, shape=sh), _sym(p + 'i', lo=-20, hi=20, integral=True, shape=sh), _sym(p + 'f', lo=-20, hi=20, integral=True, shape=sh))
    full, pos = kif('full_'), kif('pos_')
    l.paq.get_bits_exact = lambda ref=None, pos_only=False: pos if pos_only else full
    return full, pos


def chain(t):
    """layers from the output tensor back to the input of a single-path graph"""
    out = [t.node.layer]
    n = t.node
    while len(n.parent_nodes) > 0:
        n = n.parent_nodes[0]
        out.append(n.layer)
    return list(reversed(out))


def is_quantizer(label, q, k, b, i, r, s, name, overrides=None):
    _same(label + ' is a quantizer', isinstance(q, FixedPointQuantizer), True)
    _same(label + ' width', q.bits, b)
    _same(label + ' integer', q.integers, tf.where(b == 0, 0, i))
    _same(label + ' sign', q.keep_negative, tf.where(b == 0, 0, k))
    _same(label + ' rounding', q.RND, r)
    _same(label + ' overflow', q.SAT, s)
    _same(label + ' name', q.name, name)
    if overrides is not None:
        _same(label + ' overrides', q.overrides, overrides)


def rounding(strategy, covered):
    """rounding of the proxy quantizer"""
    fl = strategy in ('floor', 3) or (strategy == 'auto' and not covered)
    return 'TRN' if fl or covered else 'RND'


def linear(mkl, shape, strategy, skip, covered, sat, kind, pf=None):
    l = mkl(paq_conf=aconf(rnd_strategy=strategy, skip_dims=skip))
    l(keras.layers.Input(shape=shape[1:]))
    full, pos = fake_bits(l)
    k, i, f = full
    m = ProxyLayerXFormer(sat)(l)
    ls = chain(m.outputs[0])
    _same('layers', [_clsname(x) for x in ls], ['InputLayer', kind, 'FixedPointQuantizer'])
    _same('layer name', ls[1].name, l.name)
    ov = {'layers': {l.name: {'parallelization_factor': pf}}} if pf is not None else {'layers': {}}
    is_quantizer('quantizer', ls[2], k, k + i + f, k + i, rounding(strategy, covered), sat, l.name + '_quantizer', ov)


def relu(mkl, shape, strategy, skip, covered, sat, kind, pf=None):
    l = mkl(paq_conf=aconf(rnd_strategy=strategy, skip_dims=skip), activation='relu')
    l(keras.layers.Input(shape=shape[1:]))
    full, pos = fake_bits(l)
    k, i, f = [tf.reduce_max(v) for v in full]
    m = ProxyLayerXFormer(sat)(l)
    ls = chain(m.outputs[0])
    _same('layers', [_clsname(x) for x in ls], ['InputLayer', kind, 'FixedPointQuantizer', 'ReLU', 'FixedPointQuantizer'])
    _same('layer name', ls[1].name, l.name)
    r = rounding(strategy, covered)
    ov = {'layers': {l.name: {'parallelization_factor': pf}}} if pf is not None else {'layers': {}}
    is_quantizer('first quantizer', ls[2], k, k + i + f + (1 if r == 'RND' else 0), k + i, 'TRN', sat, l.name + '_quantizer', ov)
    k, i, f = pos
    is_quantizer('second quantizer', ls[4], k, k + i + f, k + i, r, sat, l.name + '_relu_quantizer')
    x = _sym('x')
    _same('relu is plain', ls[3].call(x), tf.nn.relu(x))


D = lambda **k: HDense(4, kq_conf=kconf(), **k)
DN = lambda **k: HDense(4, kq_conf=kconf(), use_bias=False, **k)
DB = lambda **k: HDenseBatchNorm(4, kq_conf=kconf(), **k)
C1 = lambda **k: HConv1D(4, 3, kq_conf=kconf(), **k)
C2 = lambda **k: HConv2D(4, 3, kq_conf=kconf(), **k)
C2P = lambda **k: HConv2D(4, 3, kq_conf=kconf(), parallel_factor=6, **k)
C2B = lambda **k: HConv2DBatchNorm(4, 3, kq_conf=kconf(), **k)
STRAT = ('standard_round', 'floor', 'auto', 'stochastic_round', 'fast_uniform_noise_injection')


def ob_dense():
    for fn in (linear, relu):
        for sat in ('WRAP', 'SAT'):
            for s in STRAT:
                _case(f'{s} {sat}', fn, D, (None, 7), s, (0,), True, sat, 'Dense')
                _case(f'{s} {sat} no bias', fn, DN, (None, 7), s, (0,), False, sat, 'Dense')
        for s in STRAT:
            _case(f'{s} 3d', fn, D, (None, 5, 7), s, (0,), False, 'WRAP', 'Dense', 5)
            _case(f'{s} 3d channel-wise', fn, D, (None, 5, 7), s, (0, 1), True, 'WRAP', 'Dense', 5)
            _case(f'{s} batch norm', fn, DB, (None, 7), s, (0,), True, 'SAT', 'Dense')


def ob_conv():
    for fn in (linear, relu):
        for s in STRAT:
            _case(f'{s} 1d', fn, C1, (None, 9, 2), s, (0,), False, 'WRAP', 'Conv1D', 1)
            _case(f'{s} 2d', fn, C2, (None, 9, 8, 2), s, (0,), False, 'SAT', 'Conv2D', 1)
            _case(f'{s} 2d channel-wise', fn, C2, (None, 9, 8, 2), s, (0, 1, 2), True, 'WRAP', 'Conv2D', 1)
            _case(f'{s} 2d parallel', fn, C2P, (None, 9, 8, 2), s, (0, 1), False, 'WRAP', 'Conv2D', 6)
            _case(f'{s} 2d batch norm', fn, C2B, (None, 9, 8, 2), s, (0, 1, 2), True, 'SAT', 'Conv2D', 1)


def quantize(strategy, sat, skip):
    l = HQuantize(paq_conf=aconf(rnd_strategy=strategy, skip_dims=skip))
    l(keras.layers.Input(shape=(5, 4)))
    (k, i, f), pos = fake_bits(l)
    q = ProxyLayerXFormer(sat)(l)
    is_quantizer('quantizer', q, k, k + i + f, k + i, rounding(strategy, False), sat, l.name)


def ob_quantize():
    for sat in ('WRAP', 'SAT'):
        for s in STRAT:
            _case(f'{s} {sat}', quantize, s, sat, (0,))
            _case(f'{s} {sat} layer-wise', quantize, s, sat, 'all')


def activation(a, strategy, sat):
    l = HActivation(a, paq_conf=aconf(rnd_strategy=strategy))
    l(keras.layers.Input(shape=(4,)))
    (k, i, f), pos = fake_bits(l)
    if a == 'relu':
        # the quantizer of an activation layer comes last, sees the final values
        pos = (k, i, f)
    m = ProxyLayerXFormer(sat)(l)
    ls = chain(m.outputs[0])
    _same('layers', [_clsname(x) for x in ls], ['InputLayer', 'Activation', 'FixedPointQuantizer'])
    _is('function', ls[1].activation, l.activation)
    is_quantizer('quantizer', ls[2], k, k + i + f, k + i, 'TRN' if strategy == 'floor' else 'RND', sat, l.name + '_quantizer')


def ob_activation():
    for a in ('relu', 'tanh', 'sigmoid', 'linear'):
        for s in STRAT:
            _case(f'{a} {s}', activation, a, s, 'WRAP')
    _case('tanh SAT', activation, 'tanh', 'auto', 'SAT')


def add(strategy, sat):
    l = HAdd(paq_conf=aconf(rnd_strategy=strategy))
    l([keras.layers.Input(shape=(4,)), keras.layers.Input(shape=(4,)), keras.layers.Input(shape=(4,))])
    (k, i, f), pos = fake_bits(l)
    m = ProxyLayerXFormer(sat)(l)
    q = m.outputs[0].node.layer
    is_quantizer('quantizer', q, k, k + i + f, k + i, rounding(strategy, False), sat, l.name + '_quantizer')
    n = m.outputs[0].node.parent_nodes[0]
    _same('sum', _clsname(n.layer), 'Add')
    _same('inputs in order', [t.node.layer for t in n.keras_inputs], [t.node.layer for t in m.inputs])
    _same('three inputs', len(m.inputs), 3)


def ob_add():
    for sat in ('WRAP', 'SAT'):
        for s in STRAT:
            _case(f'{s} {sat}', add, s, sat)


def signature(sat):
    k, b, i = _sym('k', bit=True, shape=()), _sym('b', lo=0, hi=24, integral=True, shape=()), _sym('i', lo=-20, hi=20, integral=True, shape=())
    l = Signature(k, b, i)
    l(keras.layers.Input(shape=(4,)))
    q = ProxyLayerXFormer(sat)(l)
    is_quantizer('quantizer', q, k, b, i, 'TRN', sat, l.name)
    _same('one type per input element', tuple(_shape_of(q.bits)), (1, 4))


def ob_signature():
    _case('WRAP', signature, 'WRAP')
    _case('SAT', signature, 'SAT')


def overflow_mode(aggressive, default):
    l = HQuantize(paq_conf=aconf())
    t = keras.layers.Input(shape=(4,))
    m = keras.Model(t, l(t))
    fake_bits(l)
    p = to_proxy_model(m) if default else to_proxy_model(m, aggressive=aggressive)
    _same('overflow mode', p.outputs[0].node.layer.SAT, 'WRAP' if aggressive else 'SAT')


def ob_overflow_mode():
    _case('aggressive', overflow_mode, True, False)
    _case('conservative', overflow_mode, False, False)
    _case('default', overflow_mode, True, True)
