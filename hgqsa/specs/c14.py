import numpy as np
import tensorflow as tf
from tensorflow import keras
from HGQ.layers import HActivation, HAdd, HDense, HLayerBase, HQuantize
from HGQ.bops.bops import CalibratedBOPs, ResetMinMax, trace_minmax


def aconf(**kw):
    d = dict(init_bw=3., skip_dims=(0,), rnd_strategy='floor', exact_q_value=True, dtype=None, bw_clip=(-23, 23), trainable=True, regularizer=None, minmax_record=True)
    d.update(kw)
    return d


class Plain(keras.layers.Layer):
    """a layer without quantizers"""


class PlainAct(keras.layers.Layer):
    activation = None


def quant(name, **kw):
    l = HQuantize(paq_conf=aconf(**kw), name=name)
    l.build((None, 4))
    return fresh(l)


def act(fn, name, **kw):
    l = HActivation(fn, paq_conf=aconf(**kw), name=name)
    l.build((None, 4))
    return fresh(l)


def fresh(l):
    n = l.name
    _setvar(l.paq.fbw, _sym(n + '_f', lo=-6, hi=12, integral=True, shape=(1, 4)))
    # left over from an earlier trace
    _setvar(l.paq._min, _sym(n + '_old_lo', shape=(1, 4)))
    _setvar(l.paq._max, _sym(n + '_old_hi', shape=(1, 4)))
    _force(l, compute_exact_bops=_sym(n + '_bops', lo=0))
    return l


def grid(l, s):
    """an arbitrary recorded extreme of layer l"""
    return _sym(l.name + s, shape=(1, 4))


class Traced:
    """stands for any model: records what it is called with; its quantized layers widen their range if they are recording"""

    def __init__(self, layers):
        self.layers = layers
        self.calls = []
        self.modes = []
        self.recording = []
        self.seen_min = []
        self.seen_max = []

    def __call__(self, x, training=None, **kw):
        self.calls.append(x)
        self.modes.append(training)
        self.recording.append([l.record_minmax for l in self.layers if isinstance(l, HLayerBase)])
        self.seen_min.append([_copyval(l.paq._min) for l in self.layers if isinstance(l, HLayerBase)])
        self.seen_max.append([_copyval(l.paq._max) for l in self.layers if isinstance(l, HLayerBase)])
        for l in self.layers:
            if isinstance(l, HLayerBase):
                l.paq._min.assign(grid(l, '_lo'))
                l.paq._max.assign(grid(l, '_hi'))
        return self.out(x)

    def out(self, x):
        return x[0] * 3. + x[1] if isinstance(x, (list, tuple)) else x * 3.

    def predict(self, x, batch_size=32, verbose=0, **kw):
        n = len(x[0]) if isinstance(x, list) else len(x)
        r = []
        for i in range(0, n, batch_size):
            r.append(self([d[i:i + batch_size] for d in x] if isinstance(x, list) else x[i:i + batch_size], training=False))
        return np.concatenate(r, axis=0)


def samples(n, c='x'):
    return np.array([_sym(f'{c}{i}') for i in range(n)])


def layers():
    return [Plain(name='p0'), quant('q'), Plain(name='p1'), act('tanh', 't'), quant('r')]


def flat(batches):
    out = []
    for b in batches:
        out += [v for v in b]
    return out


def hl(m):
    return [l for l in m.layers if isinstance(l, HLayerBase)]


# ------------------------------------------------------------------ reset
def ob_reset():
    for rst in (True, False):
        m = Traced(layers())
        was = [(_copyval(l.paq._min), _copyval(l.paq._max)) for l in hl(m)]
        trace_minmax(m, samples(4), bsz=8, verbose=False, rst=rst)
        lo, hi = m.seen_min[0], m.seen_max[0]
        for l, a, b, (ol, oh) in zip(hl(m), lo, hi, was):
            if rst:
                _same(f'{l.name} starts from an empty range (min)', tf.reduce_min(a), float('inf'))
                _same(f'{l.name} starts from an empty range (max)', tf.reduce_max(b), -float('inf'))
            else:
                _same(f'{l.name} keeps its range (min)', a, ol)
                _same(f'{l.name} keeps its range (max)', b, oh)
        if rst:
            _same('recording', m.recording, [[True] * 3])


# ------------------------------------------------------------------ dataset
def batched(n, bsz):
    m = Traced(layers())
    x = samples(n)
    trace_minmax(m, x, bsz=bsz, verbose=False)
    _same('every sample once, in order', flat(m.calls), [v for v in x])
    _same('batch sizes', [len(b) <= bsz for b in m.calls], [True] * len(m.calls))
    _same('number of batches', len(m.calls), -(-n // bsz))
    _same('inference mode', m.modes, [False] * len(m.calls))
    _same('recording throughout', m.recording, [[True] * 3] * len(m.calls))
    # the range is reset once, not between the batches
    for k in range(1, len(m.calls)):
        for l, a, b in zip(hl(m), m.seen_min[k], m.seen_max[k]):
            _same(f'range kept before batch {k} (min) {l.name}', a, grid(l, '_lo'))
            _same(f'range kept before batch {k} (max) {l.name}', b, grid(l, '_hi'))


def ob_batches():
    for n, b in ((6, 2), (7, 3), (7, 2), (5, 8), (5, 5), (1, 1), (9, 4), (4, 1)):
        _case(f'{n} samples by {b}', batched, n, b)
    m = Traced(layers())
    x = samples(5)
    trace_minmax(m, x, verbose=False)
    _same('default', flat(m.calls), [v for v in x])


def batched_list(n, bsz):
    m = Traced(layers())
    x, y = samples(n), samples(n, 'y')
    trace_minmax(m, [x, y], bsz=bsz, verbose=False)
    _same('first input', flat([c[0] for c in m.calls]), [v for v in x])
    _same('second input', flat([c[1] for c in m.calls]), [v for v in y])
    _same('sliced alike', [len(c[0]) for c in m.calls], [len(c[1]) for c in m.calls])
    _same('batch sizes', [len(c[0]) <= bsz for c in m.calls], [True] * len(m.calls))
    _same('inference mode', m.modes, [False] * len(m.calls))


def ob_list_inputs():
    for n, b in ((6, 2), (7, 3), (5, 8), (1, 1), (5, 2)):
        _case(f'{n} samples by {b}', batched_list, n, b)


# ------------------------------------------------------------------ ranges
def scaled(cf, cond=None):
    m = Traced([Plain(name='p0'), quant('q'), quant('r', rnd_strategy='standard_round'), act('relu', 'a')])
    if cond is not None:
        _assume(cond(cf))
    trace_minmax(m, samples(3), verbose=False, cover_factor=cf)
    for l in hl(m):
        lo, hi = grid(l, '_lo'), grid(l, '_hi')
        a, b = (lo + hi) / 2. - (hi - lo) / 2. * cf, (lo + hi) / 2. + (hi - lo) / 2. * cf
        s = 2.**_sym(l.name + '_f', lo=-6, hi=12, integral=True, shape=(1, 4))
        h = 0.5 if l.name == 'r' else 0.
        _same(f'{l.name} minimum', l.paq._min, tf.floor(a * s + h) / s)
        _same(f'{l.name} maximum', l.paq._max, tf.floor(b * s + h) / s)


def ob_cover_factor():
    for cf in (1.5, 2., 0.5, 4.):
        _case(f'factor {cf}', scaled, cf)
    _case('any factor above one', scaled, _sym('cf', lo=0), lambda c: c > 1)
    _case('any factor below one', scaled, _sym('cf', lo=0), lambda c: (c > 0) & (c < 1))


def ob_no_scaling():
    for kw in ({}, {'cover_factor': 1.0}):
        m = Traced([quant('q'), quant('r'), act('relu', 'a'), act('linear', 'b')])
        trace_minmax(m, samples(3), verbose=False, **kw)
        for l in hl(m):
            _same(f'{l.name} minimum', l.paq._min, grid(l, '_lo'))
            _same(f'{l.name} maximum', l.paq._max, grid(l, '_hi'))


def ob_bad_factor():
    for cf in (0., -1., -0.5):
        _raises(f'factor {cf}', lambda: trace_minmax(Traced(layers()), samples(3), verbose=False, cover_factor=cf))
    _raises('factor 2', lambda: trace_minmax(Traced(layers()), samples(3), verbose=False, cover_factor=2.), False)


def limited(fn, cf):
    m = Traced([act(fn, 'a'), quant('q')])
    trace_minmax(m, samples(3), verbose=False, cover_factor=cf)
    l = m.layers[0]
    lo, hi = grid(l, '_lo'), grid(l, '_hi')
    if cf != 1.:
        a, b = (lo + hi) / 2. - (hi - lo) / 2. * cf, (lo + hi) / 2. + (hi - lo) / 2. * cf
        s = 2.**_sym(l.name + '_f', lo=-6, hi=12, integral=True, shape=(1, 4))
        lo, hi = tf.floor(a * s) / s, tf.floor(b * s) / s
    if fn == 'softmax':
        lo, hi = lo * 0., hi * 0. + 1.
    elif fn == 'sigmoid':
        lo, hi = tf.maximum(lo, 0.), tf.minimum(hi, 1.)
    elif fn == 'tanh':
        lo, hi = tf.maximum(lo, -1.), tf.minimum(hi, 1.)
    _same('minimum', l.paq._min, lo)
    _same('maximum', l.paq._max, hi)


def ob_activation_limits():
    for fn in ('softmax', 'sigmoid', 'tanh', 'relu', 'linear', 'elu'):
        for cf in (1., 1.5):
            _case(f'{fn} {cf}', limited, fn, cf)


# ------------------------------------------------------------------ afterwards
def ob_stops():
    for kw in ({}, {'no_bops_computation': True}, {'return_predictions': True}, {'rst': False}, {'cover_factor': 1.5}):
        m = Traced(layers())
        for l in hl(m):
            l.record_minmax = True
        trace_minmax(m, samples(3), verbose=False, **kw)
        _same(f'recording off {sorted(kw.keys())}', [l.record_minmax for l in hl(m)], [False] * 3)


def ob_result():
    m = Traced(layers())
    total = _sym('q_bops', lo=0) + _sym('t_bops', lo=0) + _sym('r_bops', lo=0)
    _same('sum of BOPs', trace_minmax(m, samples(3), verbose=False), total)
    _same('verbose', trace_minmax(Traced(layers()), samples(3)), total)
    _same('no BOPs', trace_minmax(Traced(layers()), samples(3), verbose=False, no_bops_computation=True), -1)
    for n, b in ((5, 2), (4, 2), (3, 8)):
        x = samples(n)
        bops, pred = trace_minmax(Traced(layers()), x, bsz=b, verbose=False, return_predictions=True)
        _same(f'BOPs with predictions {n} {b}', bops, total)
        _same(f'predictions {n} {b}', [p for p in pred], [3. * v for v in x])
        y = samples(n, 'y')
        bops, pred = trace_minmax(Traced(layers()), [x, y], bsz=b, verbose=False, return_predictions=True)
        _same(f'predictions of two inputs {n} {b}', [p for p in pred], [3. * v + w for v, w in zip(x, y)])


# ------------------------------------------------------------------ callbacks
def empty(lab, l):
    _same(lab + ' min', tf.reduce_min(l.paq._min), float('inf'))
    _same(lab + ' max', tf.reduce_max(l.paq._max), -float('inf'))


def ob_reset_nested():
    q, r, s, t = quant('q'), quant('r'), act('tanh', 's'), quant('t')
    x, y, z = keras.layers.Input(shape=(4,)), keras.layers.Input(shape=(4,)), keras.layers.Input(shape=(4,))
    inner = keras.Model(z, s(z), name='inner')
    mid = keras.Model(y, inner(r(y)), name='mid')
    m = keras.Model(x, t(Plain(name='p')(mid(q(x)))))
    ResetMinMax.reset_minmax(m)
    for l in (q, r, s, t):
        empty(l.name, l)
    q, r, s, t = [fresh(l) for l in (q, r, s, t)]
    cb = ResetMinMax()
    cb.model = m
    cb.on_epoch_end(0)
    for l in (q, r, s, t):
        empty('callback ' + l.name, l)


def ob_calibrated():
    for bsz in (None, 2):
        m = keras.Model()
        tr = Traced(layers())
        _opaque('HGQ.bops.bops.trace_minmax', via=lambda model=None, dataset=None, bsz=16384, verbose=True, return_predictions=False, no_bops_computation=False, rst=True, cover_factor=1.0: record(model, dataset, bsz, return_predictions, no_bops_computation, rst, cover_factor))
        LOG.clear()
        x = samples(5)
        cb = CalibratedBOPs(x, bsz) if bsz else CalibratedBOPs(x)
        cb.model = m
        logs = {'loss': 1.}
        cb.on_epoch_end(3, logs)
        _transparent()
        _same(f'reported {bsz}', logs.get('bops'), _sym('traced_bops', lo=0))
        _same(f'loss kept {bsz}', logs.get('loss'), 1.)
        _same(f'traced once {bsz}', len(LOG), 1)
        _is(f'model {bsz}', LOG[0][0], m)
        _same(f'calibration data {bsz}', [v for v in LOG[0][1]], [v for v in x])
        _same(f'options {bsz}', LOG[0][3:], (False, False, True, 1.0))
        if bsz:
            _same('batch size', LOG[0][2], bsz)


LOG = []


def record(*a):
    LOG.append(a)
    return _sym('traced_bops', lo=0)
