import numpy as np
import tensorflow as tf
from tensorflow import keras
from keras.layers import Input
from HGQ.layers import HActivation, HAdd, HConv1D, HConv2D, HDense, HQuantize, PAvgPool1D, PAvgPool2D, PConcatenate, PDropout, PFlatten, PMaxPool1D, PMaxPool2D, PPermute, PReshape, Signature, PAveragePooling1D, PAveragePooling2D, PMaxPooling1D, PMaxPooling2D


class Source(keras.layers.Layer):
    """any producer: a layer with some output bitwidth"""

    def call(self, x):
        return x

    def compute_output_shape(self, s):
        return s


def source(shape, tag=''):
    s = Source()
    y = s(Input(shape=shape))
    s.act_bw = _sym('bw' + tag, lo=0, hi=40, shape=(1,) + shape)
    s.act_bw_exact = _sym('bwx' + tag, lo=0, hi=40, integral=True, shape=(1,) + shape)
    return s, y


def check(layer, want, wantx, shape):
    """reported bits are those of the elements that end up at each place"""
    got = layer.act_bw
    _same('estimated bits follow the data', got, want)
    _same('shape of the estimated bits', tuple(_shape_of(got)), (1,) + shape)
    got = layer.act_bw_exact
    _same('exact bits follow the data', got, wantx)
    _same('shape of the exact bits', tuple(_shape_of(got)), (1,) + shape)


RESHAPE = {
    'flat': ((2, 3, 4), (24,)),
    'fold': ((24,), (2, 3, 4)),
    'split': ((6, 4), (3, 2, 4)),
    'infer': ((6, 4), (3, -1)),
    'same': ((5,), (5,)),
}


def case_reshape(c_shape):
    shape, target = RESHAPE[c_shape]
    s, y = source(shape)
    l = PReshape(target)
    l(y)
    out = target if -1 not in target else (3, 8)
    check(l, tf.reshape(s.act_bw, (1,) + out), tf.reshape(s.act_bw_exact, (1,) + out), out)
    _same('the bits move like the data', l.act_bw, l.call(s.act_bw))


def ob_reshape():
    """reshape: row-major order kept"""
    for c_shape in tuple(RESHAPE):
        _case(f'{c_shape}', case_reshape, c_shape)


def case_flatten(c_shape, c_data_format):
    shape = {'1d': (5,), '2d': (3, 4), '3d': (3, 4, 2)}[c_shape]
    first = c_data_format
    s, y = source(shape)
    l = PFlatten(data_format='channels_first') if first else PFlatten()
    l(y)
    n = 1
    for d in shape:
        n = n * d

    def move(v):
        if first:
            v = tf.transpose(v, [0] + list(range(2, len(shape) + 1)) + [1])
        return tf.reshape(v, (1, n))
    check(l, move(s.act_bw), move(s.act_bw_exact), (n,))
    _same('the bits move like the data', l.act_bw, l.call(s.act_bw))


def ob_flatten():
    """flatten: data order of the layer's data format"""
    for c_shape in ('1d', '2d', '3d'):
        for c_data_format in (False, True):
            _case(f'{c_shape} {c_data_format}', case_flatten, c_shape, c_data_format)


PERM = {'id': ((3, 4), (1, 2)), 'swap': ((3, 4), (2, 1)), 'cycle': ((3, 4, 2), (2, 3, 1)), 'cycle2': ((3, 4, 2), (3, 1, 2)), 'swap3': ((3, 4, 2), (3, 2, 1)), 'square': ((4, 4), (2, 1))}


def case_permute(c_dims):
    shape, dims = PERM[c_dims]
    s, y = source(shape)
    l = PPermute(dims)
    l(y)
    p = (0,) + dims
    check(l, tf.transpose(s.act_bw, p), tf.transpose(s.act_bw_exact, p), tuple(shape[d - 1] for d in dims))
    _same('the bits move like the data', l.act_bw, l.call(s.act_bw))


def ob_permute():
    for c_dims in tuple(PERM):
        _case(f'{c_dims}', case_permute, c_dims)


def case_dropout(c_shape):
    shape = {'1d': (5,), '3d': (3, 4, 2)}[c_shape]
    s, y = source(shape)
    l = PDropout(0.3)
    l(y)
    check(l, s.act_bw, s.act_bw_exact, shape)


def ob_dropout():
    for c_shape in ('1d', '3d'):
        _case(f'{c_shape}', case_dropout, c_shape)


CAT = {'last': (((3, 4), (3, 2)), -1), 'named_last': (((3, 4), (3, 2)), 2), 'middle': (((3, 4), (5, 4)), 1), 'flat': (((4,), (4,)), -1), 'three': (((4,), (1,), (4,)), 1), 'image': (((2, 3, 4), (2, 5, 4)), 2), 'image_neg': (((2, 3, 4), (2, 5, 4)), -2)}


def case_concatenate(c_operands):
    shapes, axis = CAT[c_operands]
    src = [source(sh, str(i)) for i, sh in enumerate(shapes)]
    l = PConcatenate(axis=axis)
    l([y for s, y in src])
    out = list(shapes[0])
    ax = axis - 1 if axis > 0 else len(out) + axis
    for sh in shapes[1:]:
        out[ax] = out[ax] + sh[ax]
    w = tf.concat([s.act_bw for s, y in src], axis=axis)
    wx = tf.concat([s.act_bw_exact for s, y in src], axis=axis)
    check(l, w, wx, tuple(out))
    _same('the input bits are those of all operands', l.input_bw, w)


def ob_concatenate():
    """concatenate: operands in order along the layer's axis"""
    for c_operands in tuple(CAT):
        _case(f'{c_operands}', case_concatenate, c_operands)


POOL2 = {
    'default': dict(),
    'same': dict(padding='same'),
    'window': dict(pool_size=(3, 2)),
    'overlap': dict(pool_size=3, strides=1),
    'stride': dict(pool_size=(2, 3), strides=(3, 2), padding='same'),
    'stride_valid': dict(pool_size=(2, 3), strides=(1, 2)),
    'first': dict(pool_size=(2, 3), strides=(1, 2), data_format='channels_first'),
    'first_same': dict(pool_size=(2, 1), padding='same', data_format='channels_first'),
}
K2 = {'max': (PMaxPool2D, PMaxPooling2D), 'avg': (PAvgPool2D, PAveragePooling2D)}
K1 = {'max': (PMaxPool1D, PMaxPooling1D), 'avg': (PAvgPool1D, PAveragePooling1D)}


def two(v):
    return tuple(v) if isinstance(v, (tuple, list)) else (v, v)


def plen(n, k, s, pad):
    return (n + s - 1) // s if pad == 'same' else (n - k + s) // s


def case_pool2d(c_kind, c_conf):
    kind = c_kind
    kw = POOL2[c_conf]
    s, y = source((7, 8, 6))
    l = K2[kind][0](**kw)
    _is('both spellings name the same layer', K2[kind][0], K2[kind][1])
    l(y)
    k = two(kw.get('pool_size', 2))
    st = two(kw.get('strides', k))
    pad = kw.get('padding', 'valid')
    first = kw.get('data_format') == 'channels_first'
    f = lambda v: tf.nn.max_pool2d(v, k, st, pad.upper(), data_format='NCHW' if first else 'NHWC')
    out = (7, plen(8, k[0], st[0], pad), plen(6, k[1], st[1], pad)) if first else (plen(7, k[0], st[0], pad), plen(8, k[1], st[1], pad), 6)
    check(l, f(s.act_bw), f(s.act_bw_exact), out)
    if kind == 'max':
        _same('the bits move like the data', l.act_bw, l.call(s.act_bw))


def ob_pool2d():
    """2D pooling: window maxima with the layer's window, stride, padding and data format"""
    for c_kind in ('max', 'avg'):
        for c_conf in tuple(POOL2):
            _case(f'{c_kind} {c_conf}', case_pool2d, c_kind, c_conf)


POOL1 = {
    'default': dict(),
    'same': dict(padding='same'),
    'window': dict(pool_size=3),
    'overlap': dict(pool_size=3, strides=1),
    'stride': dict(pool_size=2, strides=3, padding='same'),
    'first': dict(pool_size=2, strides=3, data_format='channels_first'),
}


def case_pool1d(c_kind, c_conf):
    kind = c_kind
    kw = POOL1[c_conf]
    s, y = source((7, 8))
    l = K1[kind][0](**kw)
    _is('both spellings name the same layer', K1[kind][0], K1[kind][1])
    l(y)
    k = kw.get('pool_size', 2)
    st = kw.get('strides', k)
    pad = kw.get('padding', 'valid')
    first = kw.get('data_format') == 'channels_first'
    f = lambda v: tf.nn.max_pool1d(v, k, st, pad.upper(), data_format='NCW' if first else 'NWC')
    out = (7, plen(8, k, st, pad)) if first else (plen(7, k, st, pad), 8)
    check(l, f(s.act_bw), f(s.act_bw_exact), out)
    if kind == 'max':
        _same('the bits move like the data', l.act_bw, l.call(s.act_bw))


def ob_pool1d():
    """1D pooling: window maxima with the layer's window, stride, padding and data format"""
    for c_kind in ('max', 'avg'):
        for c_conf in tuple(POOL1):
            _case(f'{c_kind} {c_conf}', case_pool1d, c_kind, c_conf)


def case_signature(c_shape, c_granularity):
    shape = {'1d': (5,), '2d': (3, 4)}[c_shape]
    gran = c_granularity
    bshape = () if gran == 'one' else (1,) + shape
    b = _sym('b', lo=0, hi=40, integral=True, shape=bshape)
    i = _sym('i', lo=0, hi=40, integral=True, shape=bshape)
    k = _sym('k', lo=0, hi=1, integral=True, shape=bshape)
    l = Signature(k, b, i)
    l(Input(shape=shape))
    full = (1,) + shape
    check(l, tf.broadcast_to(b, full), tf.broadcast_to(b, full), shape)
    x = _sym('x', shape=(None,) + shape)
    _same('data pass unchanged', l.call(x), x)
    _raises('no input bits at the entrance of the model', lambda: l.input_bw)


def ob_signature():
    """signature: the declared total bits, for every element"""
    for c_shape in ('1d', '2d'):
        for c_granularity in ('one', 'each'):
            _case(f'{c_shape} {c_granularity}', case_signature, c_shape, c_granularity)


def passive(kind):
    return {'reshape': lambda: PReshape((4, 1)), 'flatten': lambda: PFlatten(), 'dropout': lambda: PDropout(0.1), 'permute': lambda: PPermute((1,)), 'quant': lambda: HQuantize(), 'act': lambda: HActivation('tanh'), 'dense': lambda: HDense(3)}[kind]()


def case_input(c_layer):
    kind = c_layer
    s, y = source((4,))
    l = passive(kind)
    l(y)
    _same('estimate: the producer\'s', l.input_bw, s.act_bw)
    _same('exact: the producer\'s', l.input_bw_exact, s.act_bw_exact)
    _is('the producer', l.last_layer, s)


def ob_input():
    """a layer's input bits are its only producer's output bits"""
    for c_layer in ('reshape', 'flatten', 'dropout', 'permute', 'quant', 'act', 'dense'):
        _case(f'{c_layer}', case_input, c_layer)


def case_reused(c_layer):
    kind = c_layer
    s, y = source((4,), 'a')
    t, z = source((4,), 'b')
    l = passive(kind)
    l(y)
    l(z)
    _raises('rejected', lambda: l.input_bw)
    _raises('rejected (exact)', lambda: l.input_bw_exact)


def ob_reused():
    """layers used more than once have no input bits"""
    for c_layer in ('reshape', 'flatten', 'dropout', 'permute', 'quant', 'act', 'dense'):
        _case(f'{c_layer}', case_reused, c_layer)


def ob_reused_concat():
    s, y = source((4,), 'a')
    t, z = source((4,), 'b')
    l = PConcatenate()
    l([y, z])
    l([z, y])
    _raises('rejected', lambda: l.input_bw)


def ob_two_inputs():
    """several producers: no single input bitwidth"""
    s, y = source((4,), 'a')
    t, z = source((4,), 'b')
    l = HAdd()
    l([y, z])
    _is('no single input bitwidth', l.input_bw, None)
    _raises('rejected (exact)', lambda: l.input_bw_exact)


def ob_chain():
    """bits travel through several passive layers"""
    s, y = source((4, 6, 2))
    a, b, c = PPermute((2, 1, 3)), PMaxPool2D((2, 2)), PFlatten()
    c(b(a(y)))
    v = tf.reshape(tf.nn.max_pool2d(tf.transpose(s.act_bw, (0, 2, 1, 3)), (2, 2), (2, 2), 'VALID'), (1, 12))
    w = tf.reshape(tf.nn.max_pool2d(tf.transpose(s.act_bw_exact, (0, 2, 1, 3)), (2, 2), (2, 2), 'VALID'), (1, 12))
    check(c, v, w, (12,))


def aconf(skip):
    return dict(init_bw=5., skip_dims=skip, rnd_strategy='standard_round', exact_q_value=True, dtype=None, bw_clip=(-23, 23), trainable=True, regularizer=None, minmax_record=True)


def case_quantized(c_layer, c_granularity):
    kind = c_layer
    skip = c_granularity
    relu = kind.endswith('relu')
    shape = {'dense': (4,), 'conv1d': (6, 3), 'conv2d': (6, 5, 3), 'quant': (4, 3), 'act': (4, 3)}[kind.split('_')[0]]
    c = aconf({'each': (0,), 'batch': 'batch', 'all': 'all'}[skip])
    a = tf.keras.activations.relu if relu else None
    if kind.startswith('dense'):
        l = HDense(3, activation=a, paq_conf=c)
    elif kind.startswith('conv1d'):
        l = HConv1D(3, 2, activation=a, paq_conf=c)
    elif kind.startswith('conv2d'):
        l = HConv2D(3, 2, activation=a, paq_conf=c)
    elif kind == 'quant':
        l = HQuantize(paq_conf=c)
    else:
        l = HActivation(a or tf.keras.activations.tanh, paq_conf=c)
    s, y = source(shape)
    l(y)
    ints = _sym('ints', lo=-30, hi=30, shape=tuple(_shape_of(l.paq.fbw)))
    fps = _sym('fps', lo=-30, hi=30, shape=tuple(_shape_of(l.paq.fbw)))
    kn = _sym('kn', lo=0, hi=1, shape=tuple(_shape_of(l.paq.fbw)))
    xi = _sym('xints', lo=0, hi=30, integral=True, shape=tuple(_shape_of(l.paq.fbw)))
    xf = _sym('xfps', lo=0, hi=30, integral=True, shape=tuple(_shape_of(l.paq.fbw)))
    xk = _sym('xkn', lo=0, hi=1, integral=True, shape=tuple(_shape_of(l.paq.fbw)))
    seen = []

    def bits(ref=None, quantized=None, pos_only=False):
        seen.append(pos_only)
        return ints, fps, kn

    def exact(ref=None, pos_only=False):
        seen.append(pos_only)
        return xk, xi, xf
    l.paq.get_bits = bits
    l.paq.get_bits_exact = exact
    out = (1,) + tuple(l.output_shape[1:])
    want = ints + fps if relu else ints + fps + kn
    got = l.act_bw
    _same('estimate', got, tf.broadcast_to(tf.nn.relu(want), out))
    _same('one estimate per output element', tuple(_shape_of(got)), out)
    got = l.act_bw_exact
    _same('exact', got, tf.broadcast_to(xk + xi + xf, out))
    _same('one exact value per output element', tuple(_shape_of(got)), out)
    for p in seen:
        _same('positive range considered exactly after relu', bool(p), relu)
def ob_quantized():
    """a quantized layer reports integer+fractional+sign bits of its output, no sign after relu, never negative"""
    for c_layer in ('dense', 'dense_relu', 'conv1d', 'conv2d_relu', 'quant', 'act', 'act_relu'):
        for c_granularity in ('each', 'batch', 'all'):
            _case(f'{c_layer} {c_granularity}', case_quantized, c_layer, c_granularity)


