import numpy as np
import tensorflow as tf
import keras
from keras.layers import Input
from HGQ.layers import HActivation, HAdd, HConv1D, HConv1DBatchNorm, HConv2D, HConv2DBatchNorm, HDense, HDenseBatchNorm, HQuantize, PAvgPool1D, PAvgPool2D, PConcatenate, PDropout, PFlatten, PMaxPool1D, PMaxPool2D, PPermute, PReshape, Signature
from HGQ.proxy.fixed_point_quantizer import FixedPointQuantizer
from HGQ.proxy.unary_lut import UnaryLUT
from HGQ.quantizer import HGQ
from HGQ.utils.utils import MonoL1


def js(v):
    """what a value looks like after a trip through a saved file"""
    if isinstance(v, dict):
        return {k: js(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [js(x) for x in v]
    if isinstance(v, MonoL1):
        return {'module': 'HGQ.utils.utils', 'class_name': 'MonoL1', 'config': js(v.get_config()), 'registered_name': _registered(MonoL1)}
    return v


def reg_of(v):
    """regularizer as keras resolves it"""
    if isinstance(v, dict):
        if v['registered_name'] is not None and v['registered_name'] == _registered(MonoL1):
            return MonoL1(**v['config'])
        return 'unknown class'
    return v


class Source(keras.layers.Layer):
    def call(self, x):
        return x

    def compute_output_shape(self, s):
        return s


def kconf(**kw):
    d = dict(init_bw=_sym('k_init', lo=-10, hi=10), skip_dims=None, rnd_strategy='standard_round', exact_q_value=True, dtype=None, bw_clip=(-23, 23), trainable=True, regularizer=MonoL1(_sym('k_l1', lo=0)))
    d.update(kw)
    return d


def aconf(**kw):
    d = dict(init_bw=_sym('a_init', lo=-10, hi=10), skip_dims=(0,), rnd_strategy='standard_round', exact_q_value=True, dtype=None, bw_clip=(-23, 23), trainable=True, regularizer=MonoL1(_sym('a_l1', lo=0)), minmax_record=True)
    d.update(kw)
    return d


def connect(l, shapes, bws):
    srcs = []
    ys = []
    for sh, bw in zip(shapes, bws):
        s = Source()
        ys.append(s(Input(shape=sh)))
        s.act_bw = bw
        srcs.append(s)
    l(ys[0] if len(ys) == 1 else ys)


def weights_made(l):
    """creation records of the weights of a layer"""
    return [e[2:] for e in _events('add_weight') if e[1] is l]


def same_quantizer(label, a, b):
    for k in ('init_bw', 'rnd_strategy', 'exact_q_value', 'trainable', 'minmax_record', 'dtype'):
        _same(f'{label}: {k}', getattr(a, k), getattr(b, k))
    sk = lambda v: v if v is None or isinstance(v, str) else tuple(v)
    _same(f'{label}: skip_dims', sk(a.skip_dims), sk(b.skip_dims))
    _same(f'{label}: bw_clip', tuple(a.bw_clip), tuple(b.bw_clip))
    x = _sym('anything', shape=(3,))
    ra, rb = reg_of(a.regularizer), reg_of(b.regularizer)
    if ra is None or rb is None or isinstance(rb, str):
        _same(f'{label}: regularizer', rb, ra)
    else:
        _same(f'{label}: regularization', rb(x), ra(x))
    _same(f'{label}: bits have the same shape', tuple(_shape_of(b.fbw)), tuple(_shape_of(a.fbw)))
    _same(f'{label}: degeneracy', b.degeneracy, a.degeneracy)
    _same(f'{label}: trainable bits', _meta(b.fbw, 'trainable'), _meta(a.fbw, 'trainable'))


def trip(cls, args, kw, shapes, saved, train=True):
    bws = [_sym(f'bw{i}', lo=0, hi=40, shape=(1,) + sh) for i, sh in enumerate(shapes)]
    l = cls(*args, **kw)
    if saved == 'built':
        connect(l, shapes, bws)
    c = js(l.get_config())
    if saved == 'new':
        connect(l, shapes, bws)
    for k in kw:
        if k in ('activation', 'noise_shape', 'name'):
            continue
        _same(f'{k} is saved as given', c[k], norm(c[k], kw[k]))
    m = cls.from_config(js(c))
    _is('same class', _cls(m), _cls(l))
    _require('the class can be found when loading', _registered(cls) == 'HGQ>' + cls.__name__)
    _same('saving the copy gives the same configuration', js(m.get_config()), c)
    connect(m, shapes, bws)
    _same('same name', m.name, l.name)
    _same('same output shape', tuple(m.output_shape), tuple(l.output_shape))
    lw, mw = weights_made(l), weights_made(m)
    _same('same number of weights', len(mw), len(lw))
    if len(mw) == len(lw):
        for a, b in zip(lw, mw):
            name, shape, init, reg, trainable, cons = a
            _same('weight name', b[0], name)
            _same(f'shape of {name}', tuple(b[1]), tuple(shape))
            _same(f'initial value of {name}', b[2], init)
            _same(f'{name} trainable', b[4], trainable)
            _same(f'constraint of {name}', b[5], cons)
            if reg is None or isinstance(reg, str):
                _same(f'regularizer of {name}', b[3], reg)
    if hasattr(l, 'paq'):
        same_quantizer('activation quantizer', l.paq, m.paq)
        if hasattr(l, 'kq'):
            same_quantizer('kernel quantizer', l.kq, m.kq)
        _same('same resource weight', float(m.beta), float(l.beta))
    vl, vm = list(l.weights), list(m.weights)
    _same('same variables', len(vm), len(vl))
    for i, (a, b) in enumerate(zip(vl, vm)):
        sh = tuple(_shape_of(a))
        _same('same variable name', b.name, a.name)
        _same(f'{a.name} keeps its shape', tuple(_shape_of(b)), sh)
        if hasattr(l, 'beta') and a is l.beta:
            continue
        v = _sym(f'w{i}', lo=1, hi=20, shape=sh)
        _setvar(a, v)
        _setvar(b, v)
    xs = [_sym(f'x{i}', shape=(5,) + sh) for i, sh in enumerate(shapes)]
    x = xs[0] if len(xs) == 1 else xs
    behave('inference', l, m, x, False, hasattr(l, 'paq'))
    if train:
        behave('training', l, m, x, True, hasattr(l, 'paq'))


def behave(mode, l, m, x, training, quantized):
    if not quantized:
        _same(f'{mode}: same output', m.call(x), l.call(x))
        return
    _clear_events()
    a = l(x, training=training)
    la = total()
    _clear_events()
    b = m(x, training=training)
    lb = total()
    _same(f'{mode}: same output', b, a)
    _same(f'{mode}: same loss', lb, la)
    _same(f'{mode}: same state', [tf.identity(v) for v in m.weights], [tf.identity(v) for v in l.weights])


def total():
    t = 0.
    for e in _events('add_loss'):
        t = t + e[0] * e[1]
    return t


def norm(saved, given):
    """the value given, in the form in which it is saved"""
    g = js(given)
    if isinstance(saved, list) and not isinstance(g, list):
        return [g] * len(saved)
    return g


BASE = {
    'plain': dict(),
    'linear': dict(activation='linear', use_bias=False),
    'relu': dict(activation='relu', kernel_initializer='he_normal', bias_initializer='ones', beta=_sym('beta_reg', lo=0, shape=())),
    'regularized': dict(kernel_regularizer='l1', bias_regularizer='l2', kernel_constraint='non_neg', bias_constraint='max_norm', activity_regularizer='l1_l2'),
    'frozen': dict(trainable=False, name='my_layer'),
    'adapt': dict(do_adapt_kernel_bits=False),
}
CONFS = {
    'kernel': lambda: dict(kq_conf=kconf()),
    'kernel coarse': lambda: dict(kq_conf=kconf(skip_dims=(0,), rnd_strategy='floor', bw_clip=(-4, 7), exact_q_value=False)),
    'kernel frozen': lambda: dict(kq_conf=kconf(skip_dims='all', rnd_strategy='stochastic_round', trainable=False, regularizer=None)),
    'activation': lambda: dict(paq_conf=aconf()),
    'activation coarse': lambda: dict(paq_conf=aconf(skip_dims='all', rnd_strategy='floor', bw_clip=(-3, 9))),
    'activation auto': lambda: dict(paq_conf=aconf(skip_dims='batch', rnd_strategy='auto')),
    'activation noise': lambda: dict(paq_conf=aconf(skip_dims=(0, -1), rnd_strategy='fast_uniform_noise_injection', trainable=False, regularizer=None)),
}
BN = {
    'bn': dict(momentum=_sym('mom', lo=0, hi=1, shape=()), epsilon=_sym('eps', lo=0, los=True, shape=())),
    'no center': dict(center=False, momentum=_sym('mom', lo=0, hi=1, shape=())),
    'no scale': dict(scale=False, momentum=_sym('mom', lo=0, hi=1, shape=())),
    'neither': dict(scale=False, center=False),
    'bn init': dict(beta_initializer='ones', gamma_initializer='zeros', moving_mean_initializer='he_normal', moving_variance_initializer='zeros'),
    'bn reg': dict(beta_regularizer='l1', gamma_regularizer='l2', beta_constraint='non_neg', gamma_constraint='max_norm'),
}


def all_of(cls, args, shape, variants, bn=False):
    for saved in ('new', 'built'):
        for n in BASE:
            _case(f'{saved} {n}', trip, cls, args, BASE[n], [shape], saved)
        for n in CONFS:
            _case(f'{saved} {n}', trip, cls, args, CONFS[n](), [shape], saved)
        for n in variants:
            _case(f'{saved} {n}', trip, cls, args, variants[n], [shape], saved)
        if bn:
            for n in BN:
                _case(f'{saved} {n}', trip, cls, args, BN[n], [shape], saved)


DENSE = {'parallel': dict(parallel_factor=3)}
CONV = {
    'parallel': dict(parallel_factor=3),
    'strides': dict(strides=2, padding='same'),
    'dilated': dict(dilation_rate=2),
    'groups': dict(groups=2, data_format='channels_last'),
}


def ob_dense():
    all_of(HDense, (4,), (6,), DENSE)
    _case('sequence', trip, HDense, (4,), DENSE['parallel'], [(3, 6)], 'new')
    _case('sequence parallel by default', trip, HDense, (4,), {}, [(3, 6)], 'built')


def ob_dense_bn():
    all_of(HDenseBatchNorm, (4,), (6,), DENSE, True)


def ob_conv1d():
    all_of(HConv1D, (4, 3), (9, 2), {**CONV, 'causal': dict(padding='causal'), 'first': dict(data_format='channels_first')})


def ob_conv2d():
    all_of(HConv2D, (4, (3, 2)), (9, 8, 2), {**CONV, 'first': dict(data_format='channels_first', strides=(2, 1))})


def ob_conv1d_bn():
    all_of(HConv1DBatchNorm, (4, 3), (9, 2), CONV, True)


def ob_conv2d_bn():
    all_of(HConv2DBatchNorm, (4, (3, 2)), (9, 8, 2), CONV, True)


def ob_misc():
    """quantization, activation and addition layers"""
    b = dict(beta=_sym('beta_reg', lo=0, shape=()))
    for saved in ('new', 'built'):
        for n in ('activation', 'activation coarse', 'activation auto', 'activation noise'):
            _case(f'{saved} quantize {n}', trip, HQuantize, (), CONFS[n](), [(4, 3)], saved)
            _case(f'{saved} act {n}', trip, HActivation, ('tanh',), CONFS[n](), [(4, 3)], saved) if n != 'activation auto' else _case(f'{saved} act {n}', trip_auto, saved)
            _case(f'{saved} add {n}', trip, HAdd, (), CONFS[n](), [(4, 3), (4, 3)], saved)
        _case(f'{saved} quantize beta', trip, HQuantize, (), {**b, 'name': 'q'}, [(4,)], saved)
        _case(f'{saved} act beta', trip, HActivation, ('sigmoid',), {**b, 'trainable': False}, [(4,)], saved)
        _case(f'{saved} add beta', trip, HAdd, (), {**b, 'name': 'q'}, [(4,), (4,)], saved)


def trip_auto(saved):
    l = HActivation('tanh', paq_conf=aconf(rnd_strategy='auto'))
    bw = [_sym('bw0', lo=0, hi=40, shape=(1, 4))]
    if saved == 'built':
        connect(l, [(4,)], bw)
    m = HActivation.from_config(js(l.get_config()))
    if saved == 'new':
        connect(l, [(4,)], bw)
    connect(m, [(4,)], bw)
    same_quantizer('activation quantizer', l.paq, m.paq)


def ob_passive():
    """passive layers"""
    P = [
        (PReshape, (), dict(target_shape=(3, 8)), [(6, 4)]),
        (PFlatten, (), dict(), [(6, 4)]),
        (PFlatten, (), dict(data_format='channels_first', name='f'), [(6, 4)]),
        (PConcatenate, (), dict(axis=1), [(6, 4), (5, 4)]),
        (PConcatenate, (), dict(), [(6, 4), (6, 3)]),
        (PPermute, (), dict(dims=(2, 1)), [(6, 4)]),
        (PDropout, (), dict(rate=_sym('rate', lo=0, hi=1, shape=())), [(6, 4)]),
        (PDropout, (), dict(rate=0.25, seed=7, noise_shape=(1, 6, 1)), [(6, 4)]),
        (PMaxPool1D, (), dict(pool_size=2, strides=1, padding='same', data_format='channels_first'), [(6, 4)]),
        (PMaxPool1D, (), dict(pool_size=3), [(6, 4)]),
        (PAvgPool1D, (), dict(pool_size=2, strides=3, padding='same'), [(6, 4)]),
        (PMaxPool2D, (), dict(pool_size=(2, 3), strides=(1, 2), padding='same', data_format='channels_first'), [(6, 4, 5)]),
        (PAvgPool2D, (), dict(pool_size=(2, 3), strides=(1, 2)), [(6, 4, 5)]),
        (PAvgPool2D, (), dict(), [(6, 4, 5)]),
    ]
    for saved in ('new', 'built'):
        for i, (cls, args, kw, shapes) in enumerate(P):
            _case(f'{saved} {cls.__name__} {i}', trip, cls, args, kw, shapes, saved, False)


def ob_signature():
    for shape in ((), (1, 4)):
        for saved in ('new', 'built'):
            _case(f'{shape} {saved}', signature, shape, saved)


def signature(bshape, saved):
    b = _sym('b', lo=0, hi=40, integral=True, shape=bshape)
    i = _sym('i', lo=0, hi=40, integral=True, shape=bshape)
    k = _sym('k', lo=0, hi=1, integral=True, shape=bshape)
    l = Signature(k, b, i, name='sig')
    if saved == 'built':
        l(Input(shape=(4,)))
    m = Signature.from_config(js(l.get_config()))
    _require('the class can be found when loading', _registered(Signature) == 'HGQ>Signature')
    if saved == 'new':
        l(Input(shape=(4,)))
    m(Input(shape=(4,)))
    _same('name', m.name, 'sig')
    for n in ('bits', 'int_bits', 'keep_negative'):
        _same(n, getattr(m, n), getattr(l, n))
    _same('declared bits', m.act_bw, tf.broadcast_to(b, (1, 4)))


def ob_monol1():
    l1 = _sym('l1', lo=0, shape=())
    r = MonoL1(l1)
    _require('the class can be found when loading', _registered(MonoL1) == 'HGQ>MonoL1')
    s = MonoL1(**js(r.get_config()))
    x = _sym('x', shape=(3, 4))
    _same('same penalty', s(x), r(x))
    _same('penalty', s(x), l1 * tf.reduce_sum(x))


def fpq(rnd, sat, shape, overrides):
    ones = (1,) + shape
    k = _sym('k', bit=True, integral=True, shape=ones)
    b = _sym('b', lo=1, hi=30, integral=True, shape=ones)
    i = _sym('i', lo=-30, hi=30, integral=True, shape=ones)
    q = FixedPointQuantizer(k, b, i, rnd, sat, overrides=overrides, name='fpq')
    s = Source()
    q(s(Input(shape=shape)))
    c = js(q.get_config())
    m = FixedPointQuantizer.from_config(c)
    _require('the class can be found when loading', _registered(FixedPointQuantizer) == 'HGQ>FixedPointQuantizer')
    _same('name', m.name, 'fpq')
    _same('rounding', m.RND, rnd)
    _same('overflow', m.SAT, sat)
    _same('overrides', m.overrides, overrides or {'layers': {}})
    for n in ('keep_negative', 'bits', 'integers'):
        _same(f'{n} fits', tuple(_shape_of(getattr(m, n))), ones)
    _same('not trained', m.trainable, False)
    _same('weights are saved in a fixed order', [w.name for w in m.weights], [w.name for w in q.weights])
    for v, w in zip(q.weights, m.weights):
        _setvar(w, tf.identity(v))
    x = _sym('x', shape=(5,) + shape)
    _same('same output', m(x), q(x))


def ob_fixed_point_quantizer():
    for rnd in ('TRN', 'RND', 'RND_CONV'):
        for sat in ('WRAP', 'SAT', 'SAT_SYM'):
            for shape in ((4,), (3, 2)):
                _case(f'{rnd} {sat} {shape}', fpq, rnd, sat, shape, None)
    _case('overrides', fpq, 'TRN', 'WRAP', (4,), {'layers': {'fpq': {'trace': True}}})


def lut(kin, kout):
    n = 2 ** sum(kin)
    t = _sym('table', shape=(n,))
    l = _try(lambda: UnaryLUT(kin, kout, table=t, RND='RND', SAT='SAT', name='lut'))
    m = UnaryLUT.from_config(js(l.get_config()))
    _require('the class can be found when loading', _registered(UnaryLUT) == 'HGQ>UnaryLUT')
    _same('name', m.name, 'lut')
    _same('input type', tuple(m.kif_in), kin)
    _same('output type', tuple(m.kif_out), kout)
    l(Input(shape=(4,)))
    m(Input(shape=(4,)))
    _same('the table fits', tuple(_shape_of(m.table)), (n,))
    _same('weights', [w.name for w in m.weights], [w.name for w in l.weights])
    _setvar(m.table, tf.identity(l.table))
    x = _sym('x', shape=(5, 4))
    _same('same output', m(x), l(x))


def ob_lut():
    for kin, kout in (((1, 2, 3), (0, 1, 7)), ((0, 3, 2), (1, 4, 2)), ((1, -1, 3), (1, 0, 4))):
        _case(f'{kin} {kout}', lut, kin, kout)


def hgq(conf, shape):
    q = HGQ.from_config(conf)
    p = HGQ.from_config(js(conf))
    for a in (q, p):
        s, d = a._compute_bw_shape_and_degeneracy(shape)
        a.degeneracy = d
        a.build(tf.Variable(tf.zeros(s)))
    same_quantizer('quantizer', q, p)


def ob_hgq():
    """quantizers from a configuration and from its saved form"""
    for sd in (None, (0,), (0, 1), 'all', 'batch', 'except_last', 'except_1st'):
        for rnd in ('standard_round', 'stochastic_round', 'fast_uniform_noise_injection', 'floor', 0, 3):
            _case(f'{sd} {rnd}', hgq, aconf(skip_dims=sd, rnd_strategy=rnd, bw_clip=(-3, 5), exact_q_value=False), (None, 3, 4))
