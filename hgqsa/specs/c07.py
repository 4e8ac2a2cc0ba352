import numpy as np
import tensorflow as tf
from HGQ.quantizer import HGQ
from HGQ.layers import HDense, HQuantize, HConv2D, HConv1D, HDenseBatchNorm, HConv2DBatchNorm, HActivation, HAdd
from HGQ.bops.bops import ResetMinMax

INF = float('inf')


def mk(skip, shape, strategy='standard_round'):
    q = HGQ(init_bw=2., skip_dims=skip, rnd_strategy=strategy, exact_q_value=True, dtype=None, bw_clip=(-23, 23), trainable=True, regularizer=None, minmax_record=True)
    q.build(shape)
    return q


def record(skip, shape, ax, training):
    q = mk(skip, shape)
    gs = tuple(_shape_of(q.fbw))
    lo, hi = _sym('lo', shape=gs), _sym('hi', shape=gs)
    _setvar(q._min, lo)
    _setvar(q._max, hi)
    x = _sym('x', shape=shape)
    y = q.forward(x, training, True)
    ymin = y if ax is None else tf.reduce_min(y, axis=ax, keepdims=True)
    ymax = y if ax is None else tf.reduce_max(y, axis=ax, keepdims=True)
    _same('min', q._min, tf.minimum(lo, ymin))
    _same('max', q._max, tf.maximum(hi, ymax))
    # second call widens further
    x2 = _sym('x2', shape=shape)
    y2 = q(x2, training=training, record_minmax=True)
    ymin2 = y2 if ax is None else tf.reduce_min(y2, axis=ax, keepdims=True)
    ymax2 = y2 if ax is None else tf.reduce_max(y2, axis=ax, keepdims=True)
    _same('min, two calls', q._min, tf.minimum(tf.minimum(lo, ymin), ymin2))
    _same('max, two calls', q._max, tf.maximum(tf.maximum(hi, ymax), ymax2))


def ob_record():
    for tr in (True, False, None):
        _case(f'batch {tr}', record, (0,), (None, 3, 4), (0,), tr)
        _case(f'all {tr}', record, 'all', (None, 3, 4), (0, 1, 2), tr)
        _case(f'except_last {tr}', record, 'except_last', (None, 3, 4), (0, 1), tr)
        _case(f'except_1st {tr}', record, 'except_1st', (None, 3, 4), (0, 2), tr)
        _case(f'(0,1) {tr}', record, (0, 1), (None, 3, 4), (0, 1), tr)
        _case(f'no shared {tr}', record, None, (1, 3, 4), None, tr)


def ob_not_recording():
    for tr in (True, False, None):
        for rec in (False, None):
            q = mk((0,), (None, 3, 4))
            lo, hi = _sym('lo', shape=(1, 3, 4)), _sym('hi', shape=(1, 3, 4))
            _setvar(q._min, lo)
            _setvar(q._max, hi)
            x = _sym('x', shape=(None, 3, 4))
            q.forward(x, tr, rec)
            q(x, tr, rec)
            q(x, tr)
            q.bias_forward(_sym('b', shape=(4,)), tr)
            _same(f'min {tr} {rec}', q._min, lo)
            _same(f'max {tr} {rec}', q._max, hi)


def ob_reset():
    q = mk((0,), (None, 3, 4))
    _same('initial min', q._min, INF)
    _same('initial max', q._max, -INF)
    _setvar(q._min, _sym('lo', shape=(1, 3, 4)))
    _setvar(q._max, _sym('hi', shape=(1, 3, 4)))
    q.minmax_reg_reset()
    _same('reset min', q._min, INF)
    _same('reset max', q._max, -INF)
    _same('not trainable', (q._min.trainable, q._max.trainable), (False, False))
    x = _sym('x', shape=(None, 3, 4))
    y = q.forward(x, False, True)
    _same('first min', q._min, tf.reduce_min(y, axis=(0,)))
    _same('first max', q._max, tf.reduce_max(y, axis=(0,)))


def layer(mkl, shape, two=False):
    for training in (True, False, None):
        for flag in (True, False):
            for explicit in (True, False, None):
                l = mkl()
                l.build([shape, shape] if two else shape)
                gs = tuple(_shape_of(l.paq.fbw))
                lo, hi = _sym('lo', shape=gs), _sym('hi', shape=gs)
                _setvar(l.paq._min, lo)
                _setvar(l.paq._max, hi)
                l.record_minmax = flag
                x = _sym('x', shape=shape)
                if two:
                    x = [x, _sym('x2', shape=shape)]
                y = l(x, training=training, record_minmax=explicit) if explicit is not None else l(x, training=training)
                rec = explicit if explicit is not None else bool(training) or flag
                lab = f'training={training} tracing={flag} explicit={explicit}'
                if rec:
                    _same(f'min {lab}', l.paq._min, tf.minimum(lo, tf.reduce_min(y, axis=(0,))))
                    _same(f'max {lab}', l.paq._max, tf.maximum(hi, tf.reduce_max(y, axis=(0,))))
                else:
                    _same(f'min {lab}', l.paq._min, lo)
                    _same(f'max {lab}', l.paq._max, hi)


def ob_layers():
    _case('HQuantize', layer, lambda: HQuantize(), (None, 4))
    _case('HDense', layer, lambda: HDense(3), (None, 4))
    _case('HDense no bias', layer, lambda: HDense(3, use_bias=False), (None, 4))
    _case('HConv1D', layer, lambda: HConv1D(3, 2), (None, 5, 4))
    _case('HConv2D', layer, lambda: HConv2D(3, 2), (None, 5, 6, 4))
    _case('HDenseBatchNorm', layer, lambda: HDenseBatchNorm(3), (None, 4))
    _case('HConv2DBatchNorm', layer, lambda: HConv2DBatchNorm(3, 2), (None, 5, 6, 4))
    _case('HActivation', layer, lambda: HActivation('tanh'), (None, 4))
    _case('HAdd', layer, lambda: HAdd(), (None, 4), True)


def layer_reset(mkl, shape):
    l = mkl()
    l.build(shape)
    _setvar(l.paq._min, _sym('lo', shape=tuple(_shape_of(l.paq.fbw))))
    _setvar(l.paq._max, _sym('hi', shape=tuple(_shape_of(l.paq.fbw))))
    l.reset_minmax()
    _same('min', l.paq._min, INF)
    _same('max', l.paq._max, -INF)


def ob_layer_reset():
    _case('HQuantize', layer_reset, lambda: HQuantize(), (None, 4))
    _case('HDense', layer_reset, lambda: HDense(3), (None, 4))
    _case('HConv2D', layer_reset, lambda: HConv2D(3, 2), (None, 5, 6, 4))
    _case('HDenseBatchNorm', layer_reset, lambda: HDenseBatchNorm(3), (None, 4))
    _case('HActivation', layer_reset, lambda: HActivation('tanh'), (None, 4))


def ob_layers_start_not_tracing():
    _same('HDense', HDense(3).record_minmax, False)
    _same('HQuantize', HQuantize().record_minmax, False)
