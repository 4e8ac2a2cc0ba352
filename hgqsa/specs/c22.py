_noenv()
_assume_installed('qkeras')
import numpy as np
import tensorflow as tf
import qkeras
from qkeras import quantizers
from tensorflow import keras
from keras.layers import Input
from HGQ.proxy.convert import ProxyLayerXFormer
from HGQ.proxy.fixed_point_quantizer import FixedPointQuantizer, gfixed_quantizer
from HGQ.proxy.plugins.qkeras import qkeras_quantizer_to_layers, qlayer_to_keras_layer

L = keras.layers
A = keras.activations


def chain(layers, x):
    for l in layers:
        x = l(x)
    return x


WIDTHS = ((1, 0), (2, 1), (2, -1), (3, 0), (5, 3), (6, -2), (8, 0), (8, 7), (12, 4), (16, 6)) + (tuple((b, i) for b in range(1, 14) for i in range(-4, 8)) if _thorough() else ())


def bits(neg, sym, SAT, b, i):
    x = _sym('x', shape=(3,))
    q = quantizers.quantized_bits(b, i, sym, neg, alpha=1)
    ls = tuple(qkeras_quantizer_to_layers(q, SAT))
    mode = 'SAT_SYM' if sym else SAT
    k = 1 if neg else 0
    # bits of a qkeras quantizer: sign + integer + fraction
    want = gfixed_quantizer(x, k, b, i + k, 'RND_CONV', mode)
    _same('values', chain(ls, x), want)
    _same('one quantizer, its modes', [(isinstance(l, FixedPointQuantizer), l.RND, l.SAT) for l in ls], [(True, 'RND_CONV', mode)])


def ob_bits():
    """quantized_bits"""
    for neg in (True, False, 1, 0):
        for sym in (0, 1, True, False):
            for SAT in ('WRAP', 'SAT', 'SAT_SYM'):
                for b, i in WIDTHS:
                    _case(f'negative {neg} symmetric {sym} {SAT} {b} {i}', bits, neg, sym, SAT, b, i)


def ob_bits_refused():
    """quantized_bits without an equivalent"""
    for SAT in ('WRAP', 'SAT'):
        for a in (None, 'auto', 'auto_po2', 2, 0.5):
            _raises(f'alpha {a} {SAT}', lambda: qkeras_quantizer_to_layers(quantizers.quantized_bits(8, 3, alpha=a), SAT))
        for s in (2, -1, 0.5):
            _raises(f'symmetric {s} {SAT}', lambda: qkeras_quantizer_to_layers(quantizers.quantized_bits(8, 3, s, alpha=1), SAT))


def relus(SAT, b, i):
    x = _sym('x', shape=(3,))
    ls = tuple(qkeras_quantizer_to_layers(quantizers.quantized_relu(b, i), SAT))
    want = gfixed_quantizer(tf.nn.relu(x), 0, b, i, 'RND_CONV', 'SAT')
    _same('values', chain(ls, x), want)
    _require('quantized last', isinstance(ls[-1], FixedPointQuantizer))
    _same('modes', (ls[-1].RND, ls[-1].SAT), ('RND_CONV', 'SAT'))


def ob_relu():
    """quantized_relu"""
    for SAT in ('WRAP', 'SAT', 'SAT_SYM'):
        for b, i in WIDTHS:
            _case(f'{SAT} {b} {i}', relus, SAT, b, i)


def ob_unsupported():
    """quantizers without an equivalent"""
    for SAT in ('WRAP', 'SAT'):
        for n, q in (('po2', quantizers.quantized_po2(4)), ('relu po2', quantizers.quantized_relu_po2(4)), ('binary 01', quantizers.binary(use_01=True)), ('stochastic binary 01', quantizers.stochastic_binary(use_01=True))):
            _raises(f'{n} {SAT}', lambda: qkeras_quantizer_to_layers(q, SAT))


def plain(f):
    x = _sym('x', shape=(3,))
    ls = tuple(qkeras_quantizer_to_layers(f, 'WRAP'))
    _same('values', chain(ls, x), f(x))


def ob_plain():
    """activations that are no quantizers"""
    _case('linear', plain, A.linear)
    _case('relu', plain, A.relu)
    _case('tanh', plain, A.tanh)
    _case('sigmoid', plain, A.sigmoid)


FIELDS = ('kernel_size', 'strides', 'padding', 'data_format', 'dilation_rate', 'groups', 'filters', 'units', 'use_bias')


def filled(mk, shape):
    l = mk()
    l(Input(shape=shape))
    k = _sym('kernel', shape=tuple(l.kernel.shape))
    _setvar(l.kernel, k)
    if l.use_bias:
        b = _sym('bias', shape=tuple(l.bias.shape))
        _setvar(l.bias, b)
    return l


def structure(mk, cls, shape):
    l = filled(mk, shape)
    kq = l.kernel_quantizer_internal or (lambda v: v)
    bq = l.bias_quantizer_internal or (lambda v: v)
    k0 = l.kernel.numpy()
    b0 = l.bias.numpy() if l.use_bias else None
    n = qlayer_to_keras_layer(l)
    _is('class', _cls(n), cls)
    for f in FIELDS:
        if hasattr(l, f):
            _same(f, getattr(n, f), getattr(l, f))
    _same('kernel', n.kernel.numpy(), kq(k0))
    if l.use_bias:
        _same('bias', n.bias.numpy(), bq(b0))
    else:
        _is('no bias', n.bias, None)
    _is('activation left to its own layer', n.activation, A.linear)
    _same('not trained', n.trainable, False)
    _same('kernel of the model', l.kernel.numpy(), k0)
    if l.use_bias:
        _same('bias of the model', l.bias.numpy(), b0)


Q = quantizers


def kq():
    return Q.quantized_bits(4, 1, alpha=1)


def bq():
    return Q.quantized_bits(6, 2, alpha=1)


QS = (('both', kq, bq), ('kernel', kq, None), ('bias', None, bq), ('none', None, None))


def variants():
    for n, k, b in QS:
        for ub in (True, False):
            kw = dict(kernel_quantizer=k() if k else None, bias_quantizer=b() if b else None, use_bias=ub)
            yield f'{n} bias {ub}', kw


def layers():
    for n, kw in variants():
        yield f'dense {n}', lambda act=None, kw=kw: qkeras.QDense(3, activation=act, **kw), L.Dense, (4,)
        yield f'dense deep {n}', lambda act=None, kw=kw: qkeras.QDense(3, activation=act, **kw), L.Dense, (2, 4)
        for s, p, d in ((1, 'valid', 1), (2, 'same', 1), (1, 'causal', 2), (1, 'valid', 3)):
            yield f'conv1d {s} {p} {d} {n}', lambda act=None, kw=kw, s=s, p=p, d=d: qkeras.QConv1D(3, 2, strides=s, padding=p, dilation_rate=d, activation=act, **kw), L.Conv1D, (8, 2)
        for s, p, d in ((1, 'valid', 1), ((2, 1), 'same', 1), (1, 'valid', (1, 2))):
            yield f'conv2d {s} {p} {d} {n}', lambda act=None, kw=kw, s=s, p=p, d=d: qkeras.QConv2D(3, (2, 3), strides=s, padding=p, dilation_rate=d, activation=act, **kw), L.Conv2D, (6, 8, 2)


def ob_structure():
    """layer with quantized weights"""
    for n, mk, cls, shape in layers():
        _case(n, structure, mk, cls, shape)
    for n, mk, cls, shape in layers():
        _case(n + ' relu', structure, lambda: mk(A.relu), cls, shape)
        _case(n + ' quantized', structure, lambda: mk(kq()), cls, shape)


def whole(mk, shape, act, SAT, ref):
    l = filled(lambda: mk(act), shape)
    m = ProxyLayerXFormer(SAT)(l)
    x = _sym('x', shape=(5,) + shape)
    # the layer itself, its activation replaced by the reference
    want = ref(l_linear(l, x))
    _same('values', m(x), want)


def l_linear(l, x):
    a = l.activation
    _force(l, activation=A.linear)
    y = l(x)
    _force(l, activation=a)
    return y


def fq(k, b, i, RND, SAT):
    return lambda x: gfixed_quantizer(x, k, b, i, RND, SAT)


def ob_whole():
    """layer and activation"""
    for n, mk, cls, shape in layers():
        _case(n, whole, mk, shape, None, 'WRAP', A.linear)
        _case(n + ' relu', whole, mk, shape, A.relu, 'WRAP', A.relu)
        for SAT in ('WRAP', 'SAT'):
            _case(n + f' bits {SAT}', whole, mk, shape, Q.quantized_bits(6, 2, alpha=1), SAT, fq(1, 6, 3, 'RND_CONV', SAT))
            _case(n + f' unsigned {SAT}', whole, mk, shape, Q.quantized_bits(6, 2, keep_negative=False, alpha=1), SAT, fq(0, 6, 2, 'RND_CONV', SAT))
            _case(n + f' symmetric {SAT}', whole, mk, shape, Q.quantized_bits(6, 2, 1, alpha=1), SAT, fq(1, 6, 3, 'RND_CONV', 'SAT_SYM'))
            _case(n + f' quantized relu {SAT}', whole, mk, shape, Q.quantized_relu(5, 3), SAT, lambda x: gfixed_quantizer(tf.nn.relu(x), 0, 5, 3, 'RND_CONV', 'SAT'))


def activation(mk, SAT, ref):
    l = mk()
    l(Input(shape=(4, 2)))
    m = ProxyLayerXFormer(SAT)(l)
    x = _sym('x', shape=(5, 4, 2))
    _same('values', m(x), ref(x))


def ob_activation():
    """stand-alone activation layers"""
    for kind in (qkeras.QActivation,):
        for SAT in ('WRAP', 'SAT'):
            n = SAT
            _case(n + ' bits', activation, lambda: kind(Q.quantized_bits(6, 2, alpha=1)), SAT, fq(1, 6, 3, 'RND_CONV', SAT))
            _case(n + ' unsigned', activation, lambda: kind(Q.quantized_bits(6, 2, keep_negative=0, alpha=1)), SAT, fq(0, 6, 2, 'RND_CONV', SAT))
            _case(n + ' symmetric', activation, lambda: kind(Q.quantized_bits(6, 2, 1, alpha=1)), SAT, fq(1, 6, 3, 'RND_CONV', 'SAT_SYM'))
            _case(n + ' quantized relu', activation, lambda: kind(Q.quantized_relu(5, 3)), SAT, lambda x: gfixed_quantizer(tf.nn.relu(x), 0, 5, 3, 'RND_CONV', 'SAT'))
