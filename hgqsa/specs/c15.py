import numpy as np
import tensorflow as tf
from tensorflow import keras
from keras.layers import Input
from HGQ.layers import HActivation, HAdd, HConv1D, HConv1DBatchNorm, HConv2D, HConv2DBatchNorm, HDense, HDenseBatchNorm, HQuantize, PFlatten
from HGQ.layers.batchnorm_base import HBatchNormalization
from HGQ.bops.bops import FreeBOPs


def kconf(**kw):
    d = dict(init_bw=3., skip_dims=None, rnd_strategy='standard_round', exact_q_value=True, dtype=None, bw_clip=(-23, 23), trainable=True, regularizer=None)
    d.update(kw)
    return d


def aconf(**kw):
    d = kconf(skip_dims=(0,), minmax_record=True, init_bw=5.)
    d.update(kw)
    return d


KINDS = {'dense': HDense, 'conv1d': HConv1D, 'conv2d': HConv2D, 'dense_bn': HDenseBatchNorm, 'conv1d_bn': HConv1DBatchNorm, 'conv2d_bn': HConv2DBatchNorm}


def losses():
    """what has been added to the training loss"""
    t = 0.
    for e in _events('add_loss'):
        t = t + e[0] * e[1]
    return t


class Source(keras.layers.Layer):
    """any producer: a layer with some output bitwidth"""

    def call(self, x):
        return x

    def compute_output_shape(self, s):
        return s


def mk(kind, shape, bn=None, kskip=None, **opts):
    kw = dict(do_adapt_kernel_bits=False, kq_conf=kconf(skip_dims=kskip), paq_conf=aconf(), **opts)
    if kind.endswith('_bn'):
        kw.update(bn or {})
    if kind.startswith('dense'):
        l = KINDS[kind](4, **kw)
    elif kind.startswith('conv1d'):
        l = KINDS[kind](4, 3, **kw)
    else:
        l = KINDS[kind](4, (3, 2), **kw)
    x = Input(shape=shape)
    src = Source()
    l(src(x))
    one = (1,) + shape
    src.act_bw = _sym('ibw', lo=0, hi=40, shape=one)
    src.act_bw_exact = _sym('ibwx', lo=0, hi=40, integral=True, shape=one)
    kf = _sym('kf', lo=-20, hi=20, shape=tuple(_shape_of(l.kq.fbw)))
    _setvar(l.kq.fbw, kf)
    _setvar(l.paq.fbw, _sym('af', lo=-20, hi=20, shape=tuple(_shape_of(l.paq.fbw))))
    _setvar(l.kernel, _sym('k', shape=tuple(_shape_of(l.kernel))))
    _setvar(l.beta, _sym('beta_reg', lo=0))
    return l, src, kf


def oper(kind, x, k, opts):
    """the plain operation of the layer"""
    if kind.startswith('dense'):
        return tf.matmul(x, k)
    rank = 1 if kind.startswith('conv1d') else 2
    first = opts.get('data_format') == 'channels_first'
    tup = lambda v: [v] * rank if not isinstance(v, (tuple, list)) else list(v)
    df = {1: ('NWC', 'NCW'), 2: ('NHWC', 'NCHW')}[rank][1 if first else 0]
    return tf.nn.convolution(x, k, strides=tup(opts.get('strides', 1)), padding=opts.get('padding', 'valid').upper(), dilations=tup(opts.get('dilation_rate', 1)), data_format=df)


def positions(kind, shape, opts):
    """number of spatial output positions"""
    first = opts.get('data_format') == 'channels_first'
    sp = shape[1:] if first else shape[:-1]
    ks = (3,) if kind.startswith('conv1d') else (3, 2)
    n = 1
    for d, (s, k) in enumerate(zip(sp, ks)):
        st = opts.get('strides', 1)
        st = st[d] if isinstance(st, (tuple, list)) else st
        dl = opts.get('dilation_rate', 1)
        dl = dl[d] if isinstance(dl, (tuple, list)) else dl
        eff = (k - 1) * dl + 1
        n = n * (-(-s // st) if opts.get('padding') == 'same' else -(-(s - eff + 1) // st))
    return n


def total(kind, shape, ibw, kbw, opts):
    s = tf.reduce_sum(oper(kind, ibw, kbw, opts))
    if kind.startswith('dense'):
        return s
    return s * float(opts.get('parallel_factor', 1)) / float(positions(kind, shape, opts))


def widths(kq, kf, skip, shape):
    """fractional plus integer bits of every (group of) kernel entries, no sign, at least 0"""
    i = tf.floor(tf.math.log(tf.abs(kq)) / np.log(2)) + 1.
    if skip:
        i = tf.reduce_max(i, axis=skip, keepdims=True)
    return tf.broadcast_to(tf.nn.relu(i + tf.round(kf)), shape)


CASES = (
    ('dense', (5,), {}), ('dense', (3, 5), {}), ('dense', (5,), {'parallel_factor': 2}),
    ('conv1d', (8, 2), {}), ('conv1d', (9, 2), {'strides': 2, 'parallel_factor': 2}), ('conv1d', (9, 2), {'padding': 'same', 'strides': 2}), ('conv1d', (12, 2), {'dilation_rate': 2}),
    ('conv2d', (8, 6, 2), {}), ('conv2d', (8, 6, 2), {'strides': (2, 1), 'parallel_factor': 5}), ('conv2d', (8, 6, 2), {'padding': 'same'}), ('conv2d', (2, 8, 6), {'data_format': 'channels_first'}),
    ('conv2d', (9, 7, 2), {'dilation_rate': (2, 1), 'parallel_factor': 3}),
)


def estimate(kind, shape, opts, training, kskip=None):
    l, src, kf = mk(kind, shape, None, kskip, **opts)
    x = _sym('x', shape=(None,) + shape)
    # the quantized kernel of this pass
    q = tf.floor(l.kernel * 2.**tf.round(kf) + 0.5) / 2.**tf.round(kf)
    want = total(kind, shape, src.act_bw, widths(q, kf, kskip, tuple(_shape_of(l.kernel))), opts)
    _clear_events()
    l(x, training=training)
    _same('estimate', l.bops, want)
    _same('loss', losses(), want * _sym('beta_reg', lo=0))


def ob_estimate():
    for kind, shape, opts in CASES:
        for training in (True, False):
            _case(f'{kind} {shape} {opts} training={training}', estimate, kind, shape, opts, training)


def ob_estimate_shared_bits():
    for training in (True, False):
        _case(f'dense per output {training}', estimate, 'dense', (5,), {}, training, (0,))
        _case(f'dense uniform {training}', estimate, 'dense', (5,), {}, training, (0, 1))
        _case(f'conv1d per channel {training}', estimate, 'conv1d', (8, 2), {'parallel_factor': 2}, training, (0, 1))
        _case(f'conv2d uniform {training}', estimate, 'conv2d', (8, 6, 2), {}, training, (0, 1, 2, 3))


def estimate_bn(kind, shape, opts, center, scale, use_bias, training):
    l, src, kf = mk(kind, shape, dict(center=center, scale=scale, use_bias=use_bias, epsilon=_sym('eps', lo=0, los=True, shape=()), momentum=_sym('mom', lo=0, hi=1, shape=())), None, **opts)
    if center and use_bias:
        _setvar(l.bn_beta, _sym('bb', shape=(4,)))
        _setvar(l.moving_mean, _sym('mm', shape=(4,)))
    if scale:
        _setvar(l.bn_gamma, _sym('gamma', shape=(4,)))
        _setvar(l.moving_variance, _sym('mv', lo=0, shape=(4,)))
    x = _sym('x', shape=(None,) + shape)
    k = l.kernel
    if scale:
        var = _sym('mv', lo=0, shape=(4,))
        if training:
            rank = len(shape) + 1
            first = opts.get('data_format') == 'channels_first'
            var = tf.math.reduce_variance(oper(kind, x, _copyval(l.kernel), opts), axis=([0] + list(range(2, rank))) if first else list(range(rank - 1)))
        k = k * (_sym('gamma', shape=(4,)) * tf.math.rsqrt(var + _sym('eps', lo=0, los=True, shape=())))
    q = tf.floor(k * 2.**tf.round(kf) + 0.5) / 2.**tf.round(kf)
    want = total(kind, shape, src.act_bw, widths(q, kf, None, tuple(_shape_of(l.kernel))), opts)
    _clear_events()
    l(x, training=training)
    _same('estimate', l.bops, want)
    _same('loss', losses(), want * _sym('beta_reg', lo=0))


def ob_estimate_bn():
    for kind, shape, opts in (('dense_bn', (5,), {}), ('conv1d_bn', (8, 2), {'parallel_factor': 2}), ('conv2d_bn', (8, 6, 2), {'strides': 2, 'padding': 'same', 'parallel_factor': 3}), ('conv2d_bn', (2, 8, 6), {'data_format': 'channels_first'})):
        for center, scale, use_bias in ((True, True, True), (True, False, True), (False, True, True), (False, True, False), (False, False, True)):
            for training in (True, False):
                _case(f'{kind} {opts} center={center} scale={scale} bias={use_bias} training={training}', estimate_bn, kind, shape, opts, center, scale, use_bias, training)


def exact(kind, shape, opts):
    l, src, kf = mk(kind, shape, {}, None, **opts)
    kb = _sym('kbwx', lo=0, hi=40, integral=True, shape=tuple(_shape_of(l.kernel)))
    _force(l, kernel_bw_exact=kb)
    want = total(kind, shape, src.act_bw_exact, kb, opts)
    got = l.compute_exact_bops
    _same('exact count', got, want)
    _same('stored', l.bops, want)


def ob_exact():
    for kind, shape, opts in CASES:
        _case(f'{kind} {shape} {opts}', exact, kind, shape, opts)
        _case(f'{kind}_bn {shape} {opts}', exact, kind + '_bn', shape, opts)


def kernel_exact(kind, shape, scale=None):
    l, src, kf = mk(kind, shape, {'scale': scale} if scale is not None else {}, None)
    if scale:
        _setvar(l.bn_gamma, _sym('gamma', shape=(4,)))
        _setvar(l.moving_variance, _sym('mv', lo=0, shape=(4,)))
    seen = []
    k, i, f = [_sym(n, lo=0, hi=9, integral=True, shape=tuple(_shape_of(l.kernel))) for n in ('bk', 'bi', 'bf')]

    def bits(ref=None, pos_only=False):
        seen.append(_copyval(ref))
        return k, i, f
    l.kq.get_bits_exact = bits
    _same('integer plus fractional bits', l.kernel_bw_exact, i + f)
    w = _sym('k', shape=tuple(_shape_of(l.kernel)))
    if scale:
        w = w * (_sym('gamma', shape=(4,)) * tf.math.rsqrt(_sym('mv', lo=0, shape=(4,)) + l.epsilon))
    _same('of the deployed kernel', seen, [w])


def ob_kernel_exact():
    _case('dense', kernel_exact, 'dense', (5,))
    _case('conv1d', kernel_exact, 'conv1d', (8, 2))
    _case('conv2d', kernel_exact, 'conv2d', (8, 6, 2))
    for s in (True, False):
        _case(f'dense bn scale={s}', kernel_exact, 'dense_bn', (5,), s)
        _case(f'conv2d bn scale={s}', kernel_exact, 'conv2d_bn', (8, 6, 2), s)


def free(mkl, shape):
    """layers without kernel cost nothing"""
    x = Input(shape=shape)
    l = mkl()
    l([x, x] if isinstance(l, HAdd) else x)
    _setvar(l.bops, _sym('left over'))
    _same('exact', l.compute_exact_bops, 0.)
    _same('stored', l.bops, 0.)
    v = _sym('v', shape=(None,) + shape)
    _clear_events()
    l([v, v] if isinstance(l, HAdd) else v, training=True)
    _same('no loss', losses(), 0.)


def ob_free_layers():
    _case('quantize', free, lambda: HQuantize(paq_conf=aconf()), (4,))
    _case('activation', free, lambda: HActivation('tanh', paq_conf=aconf()), (4,))
    _case('add', free, lambda: HAdd(paq_conf=aconf()), (4,))


def ob_initial():
    for kind, shape, opts in (('dense', (5,), {}), ('conv1d', (8, 2), {}), ('conv2d', (8, 6, 2), {})):
        l, src, kf = mk(kind, shape, **opts)
        _same(f'{kind} starts at 0', l.bops, 0.)
        _same(f'{kind} not trainable', _meta(l.bops, 'trainable'), False)


def ob_without_known_input():
    """a layer whose producer's bitwidth is unknown adds no cost and still works"""
    for kind, shape in (('dense', (5,)), ('conv1d', (8, 2)), ('conv2d', (8, 6, 2)), ('dense_bn', (5,)), ('conv2d_bn', (8, 6, 2))):
        kw = dict(kq_conf=kconf(), paq_conf=aconf())
        l = KINDS[kind](4, **kw) if kind.startswith('dense') else KINDS[kind](4, 3 if '1d' in kind else (3, 2), **kw)
        l.build((None,) + shape)
        _clear_events()
        l(_sym('x', shape=(None,) + shape), training=False)
        _same(f'{kind}: no loss', losses(), 0.)
        _same(f'{kind}: BOPs', l.bops, 0.)


class Lay(keras.layers.Layer):
    def __init__(self, b, **kw):
        super().__init__(**kw)
        self.bops = tf.Variable(0.)
        _setvar(self.bops, b)

    def call(self, x):
        return x

    def compute_output_shape(self, s):
        return s


def ob_callback():
    a, b, c, d = [Lay(_sym('bops_' + n, lo=0), name=n) for n in 'abcd']
    x, y, z = Input(shape=(4,)), Input(shape=(4,)), Input(shape=(4,))
    inner = keras.Model(z, c(z), name='inner')
    mid = keras.Model(y, inner(b(y)), name='mid')
    m = keras.Model(x, d(Source()(mid(a(x)))))
    cb = FreeBOPs()
    cb.model = m
    logs = {'loss': 2.}
    cb.on_epoch_end(1, logs)
    s = _sym('bops_a', lo=0) + _sym('bops_b', lo=0) + _sym('bops_c', lo=0) + _sym('bops_d', lo=0)
    _same('sum over all layers', logs['bops'], s)
    _same('other entries kept', logs['loss'], 2.)


def bn_layer(training):
    l = HBatchNormalization(kq_conf=kconf(skip_dims=None), paq_conf=aconf(), do_adapt_kernel_bits=False)
    x = Input(shape=(3, 4))
    src = Source()
    src.act_bw = _sym('ibw', lo=0, hi=40, shape=(1, 3, 4))
    l(src(x))
    kf = _sym('kf', lo=-20, hi=20, shape=tuple(_shape_of(l.kq.fbw)))
    _setvar(l.kq.fbw, kf)
    _setvar(l.beta, _sym('beta_reg', lo=0))
    for n in ('bn_gamma', 'bn_beta', 'moving_mean'):
        _setvar(getattr(l, n), _sym(n, shape=tuple(_shape_of(getattr(l, n)))))
    _setvar(l.moving_variance, _sym('mv', lo=0, shape=tuple(_shape_of(l.moving_variance))))
    v = _sym('x', shape=(None, 3, 4))
    var = tf.math.reduce_variance(v, axis=[0, 1], keepdims=True) if training else _copyval(l.moving_variance)
    k = l.bn_gamma * tf.math.rsqrt(var + l.epsilon)
    q = tf.floor(k * 2.**tf.round(kf) + 0.5) / 2.**tf.round(kf)
    kb = tf.nn.relu(tf.floor(tf.math.log(tf.abs(q)) / np.log(2)) + 1. + tf.round(kf))
    want = tf.reduce_sum(src.act_bw * kb)
    _clear_events()
    l(v, training=training)
    _same('estimate', l.bops, want)
    _same('loss', losses(), want * _sym('beta_reg', lo=0))


def ob_bn_layer():
    for t in (True, False):
        _case(f'training={t}', bn_layer, t)
