import numpy as np
import tensorflow as tf
from HGQ.quantizer import HGQ
from HGQ.layers import HDense, HQuantize, HConv2D, HConv1D, HDenseBatchNorm, HConv1DBatchNorm


def mk(skip, shape, **kw):
    q = HGQ(init_bw=2., skip_dims=skip, rnd_strategy='floor', exact_q_value=True, dtype=None, bw_clip=(-23, 23), trainable=True, regularizer=None, **kw)
    return q


def shape_case(skip, shape, want, mult, dims):
    q = mk(skip, shape)
    got, n = q._compute_bw_shape_and_degeneracy(shape)
    _same('shape', tuple(got), want)
    _same('multiplicity', n, mult)
    q = mk(skip, shape)
    q.build(shape)
    _same('built shape', tuple(_shape_of(q.fbw)), want)
    _same('built multiplicity', q.degeneracy, mult)
    _same('initial value', q.fbw, 2.)
    _same('trainable', q.fbw.trainable, True)
    _same('shared dims', q.skip_dims if q.skip_dims is None else tuple(q.skip_dims), dims)


def ob_shape_and_multiplicity():
    S = (None, 3, 5, 4)
    K = (3, 3, 5, 4)
    _case('none', shape_case, None, K, K, 1, None)
    _case("'none'", shape_case, 'none', K, K, 1, None)
    _case('()', shape_case, (), K, K, 1, ())
    _case('(0,)', shape_case, (0,), S, (1, 3, 5, 4), 1, (0,))
    _case("'batch'", shape_case, 'batch', S, (1, 3, 5, 4), 1, (0,))
    _case("'batch' kernel", shape_case, 'batch', K, (1, 3, 5, 4), 3, (0,))
    _case("'all'", shape_case, 'all', S, (1, 1, 1, 1), 60, (0, 1, 2, 3))
    _case("'all' kernel", shape_case, 'all', (7, 4), (1, 1), 28, (0, 1))
    _case("'except_last'", shape_case, 'except_last', S, (1, 1, 1, 4), 15, (0, 1, 2))
    _case("'except_1st'", shape_case, 'except_1st', S, (1, 3, 1, 1), 20, (0, 2, 3))
    _case("'except_1st' dense", shape_case, 'except_1st', (None, 3), (1, 3), 1, (0,))
    _case('(1, 3)', shape_case, (1, 3), K, (3, 1, 5, 1), 12, (1, 3))
    _case('(0, 2)', shape_case, (0, 2), S, (1, 3, 1, 4), 5, (0, 2))
    _case('[0, 1]', shape_case, [0, 1], S, (1, 1, 5, 4), 3, (0, 1))
    a, b, c = _sym('a', lo=1, hi=64, integral=True), _sym('b', lo=1, hi=64, integral=True), _sym('c', lo=1, hi=64, integral=True)
    _case('symbolic all', shape_case, 'all', (None, a, b, c), (1, 1, 1, 1), a * b * c, (0, 1, 2, 3))
    _case('symbolic except_last', shape_case, 'except_last', (None, a, b, c), (1, 1, 1, c), a * b, (0, 1, 2))
    _case('symbolic except_1st', shape_case, 'except_1st', (None, a, b, c), (1, a, 1, 1), b * c, (0, 2, 3))
    _case('symbolic (2,)', shape_case, (2,), (a, b, c), (a, b, 1), c, (2,))


def ob_unknown_name_refused():
    _raises('unknown', lambda: mk('last', (None, 3))._compute_bw_shape_and_degeneracy((None, 3)))
    _raises('known', lambda: mk('all', (None, 3))._compute_bw_shape_and_degeneracy((None, 3)), False)


def clip_case(lo, hi):
    q = HGQ(init_bw=2., skip_dims=(0,), rnd_strategy='floor', bw_clip=(lo, hi))
    q.build((None, 3))
    fbw = _sym('fbw', shape=(1, 3))
    _setvar(q.fbw, fbw)
    x = _sym('x', shape=(None, 3))
    q(x)
    _same('inference', q.fbw, tf.minimum(tf.maximum(fbw, lo), hi))
    _setvar(q.fbw, fbw)
    q(x, training=True)
    _same('training', q.fbw, tf.minimum(tf.maximum(fbw, lo), hi))


def ob_clipping():
    _case('(-23,23)', clip_case, -23, 23)
    _case('(0,8)', clip_case, 0, 8)
    q = HGQ(init_bw=2., skip_dims=(0,), rnd_strategy='floor', bw_clip=None)
    q.build((None, 3))
    fbw = _sym('fbw', shape=(1, 3))
    _setvar(q.fbw, fbw)
    q(_sym('x', shape=(None, 3)))
    _same('no clipping', q.fbw, fbw)


def adapt(skip, shape, ax):
    q = mk(skip, shape)
    q.build(shape)
    fbw = _sym('fbw', shape=tuple(_shape_of(q.fbw)))
    _setvar(q.fbw, fbw)
    r = _sym('ref', shape=shape)
    q.adapt_bw_bits(r)
    want = fbw - tf.math.log(tf.abs(r)) / np.log(2)
    if ax is not None:
        want = tf.reduce_min(want, axis=ax, keepdims=True)
    _same('adapted', q.fbw, want)


def ob_adaption():
    _case('element-wise', adapt, None, (3, 4), None)
    _case('all', adapt, 'all', (3, 4), (0, 1))
    _case('except_last', adapt, 'except_last', (3, 5, 4), (0, 1))
    _case('except_1st', adapt, 'except_1st', (3, 5, 4), (0, 2))
    _case('(1,)', adapt, (1,), (3, 5, 4), (1,))


def conf(**kw):
    d = dict(init_bw=3., skip_dims=None, rnd_strategy='standard_round', exact_q_value=True, dtype=None, bw_clip=(-23, 23), trainable=True, regularizer=None)
    d.update(kw)
    return d


def paconf(**kw):
    d = conf(skip_dims=(0,), minmax_record=True, init_bw=5.)
    d.update(kw)
    return d


def log2abs(x):
    return tf.math.log(tf.abs(x)) / np.log(2)


def clip(x):
    return tf.minimum(tf.maximum(x, -23), 23)


def layer_case(mkl, shape, kshape, ashape, kn, an):
    l = mkl(kq_conf=conf(), paq_conf=paconf())
    l.build(shape)
    _same('kernel bit shape', tuple(_shape_of(l.kq.fbw)), kshape)
    _same('activation bit shape', tuple(_shape_of(l.paq.fbw)), ashape)
    _same('kernel bits: configured value adapted to the kernel', l.kq.fbw, 3. - log2abs(l.kernel))
    _same('activation bits start', l.paq.fbw, 5.)
    _same('kernel multiplicity', l.kq.degeneracy, kn)
    _same('activation multiplicity', l.paq.degeneracy, an)
    fbw = _sym('fbw', shape=kshape)
    _setvar(l.kq.fbw, fbw)
    x = _sym('x', shape=shape)
    l(x, training=True)
    _same('not adapted again', l.kq.fbw, clip(fbw))
    l2 = mkl(kq_conf=conf(), paq_conf=paconf(), do_adapt_kernel_bits=False)
    l2.build(shape)
    _same('not adapted when disabled', l2.kq.fbw, 3.)
    l3 = mkl(kq_conf=conf(skip_dims='all'), paq_conf=paconf(skip_dims='all'))
    l3.build(shape)
    _same('shared: smallest over the group', l3.kq.fbw, 3. - tf.reduce_max(log2abs(l3.kernel)))
    _same('not trainable when so configured', mkt(mkl, shape).kq.fbw.trainable, False)
    _same('activation bits stay trainable', mkt(mkl, shape).paq.fbw.trainable, True)


def mkt(mkl, shape):
    l = mkl(kq_conf=conf(trainable=False), paq_conf=paconf())
    l.build(shape)
    return l


def ob_layers():
    _case('dense', layer_case, lambda **k: HDense(4, **k), (None, 7), (7, 4), (1, 4), 1, 1)
    _case('conv1d', layer_case, lambda **k: HConv1D(4, 3, **k), (None, 7, 2), (3, 2, 4), (1, 5, 4), 1, 1)
    _case('conv2d', layer_case, lambda **k: HConv2D(4, (3, 3), **k), (None, 8, 7, 2), (3, 3, 2, 4), (1, 6, 5, 4), 1, 1)
    _case('conv2d parallel', layer_case, lambda **k: HConv2D(4, (3, 3), parallel_factor=6, **k), (None, 8, 7, 2), (3, 3, 2, 4), (1, 6, 5, 4), 6, 1)
    _case('conv1d batch norm', layer_case, lambda **k: HConv1DBatchNorm(4, 3, **k), (None, 7, 2), (3, 2, 4), (1, 5, 4), 1, 1)


def delayed(scale):
    l = HDenseBatchNorm(4, kq_conf=conf(), paq_conf=paconf(), scale=scale)
    l.build((None, 7))
    x = _sym('x', shape=(None, 7))
    _same('configured value', l.kq.fbw, 3.)
    l(x, training=False)
    _same('not adapted at inference', l.kq.fbw, 3.)
    l(x, training=True)
    _require('adapted in the first training step', _mentions(l.kq.fbw, l.kernel))
    fbw = _sym('fbw', shape=(7, 4))
    _setvar(l.kq.fbw, fbw)
    l(x, training=True)
    _same('not adapted again', l.kq.fbw, clip(fbw))
    l2 = HDenseBatchNorm(4, kq_conf=conf(), paq_conf=paconf(), scale=scale, do_adapt_kernel_bits=False)
    l2.build((None, 7))
    l2(x, training=True)
    _same('not adapted when disabled', l2.kq.fbw, 3.)


def ob_delayed_adaption():
    _case('scale', delayed, True)
    _case('no scale', delayed, False)
