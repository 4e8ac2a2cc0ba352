import numpy as np
import tensorflow as tf
from tensorflow import keras
from keras.layers import Input, Dense, Add, Subtract, Multiply, Concatenate, Activation, Dropout, ReLU
from HGQ.layers import HDense, HQuantize, HActivation, HAdd, PDropout, PFlatten, PReshape, PMaxPooling2D, PAveragePooling1D, PPermute, PConcatenate, Signature
from HGQ.proxy.convert import convert_model, to_proxy_model, Namer, ProxyLayerXFormer, apply_layer


def op(tag, *xs):
    return _sa_uninterpreted('op_' + tag, *xs)


class Op(keras.layers.Layer):
    """an arbitrary layer: an unknown function of its inputs and of its identity"""

    def __init__(self, tag, **kw):
        super().__init__(**kw)
        self.tag = tag

    def call(self, x):
        return op(self.tag, *x) if isinstance(x, (list, tuple)) else op(self.tag, x)

    def compute_output_shape(self, s):
        return s[0] if isinstance(s, list) else s


def mk(tag):
    return Op(tag, name=tag)


# ------------------------------------------------------------------ graphs
def chain():
    x = Input(shape=(4,))
    return keras.Model(x, mk('c')(mk('b')(mk('a')(x))))


def diamond():
    x = Input(shape=(4,))
    a = mk('a')(x)
    return keras.Model(x, mk('d')([mk('b')(a), mk('c')(a)]))


def diamond_swapped():
    x = Input(shape=(4,))
    a = mk('a')(x)
    b, c = mk('b')(a), mk('c')(a)
    return keras.Model(x, mk('d')([c, b]))


def same_twice():
    x = Input(shape=(4,))
    a = mk('a')(x)
    return keras.Model(x, mk('d')([a, a]))


def skip():
    x = Input(shape=(4,))
    a = mk('a')(x)
    return keras.Model(x, mk('d')([x, mk('b')(a), a]))


def two_inputs():
    x, y = Input(shape=(4,)), Input(shape=(4,))
    return keras.Model([x, y], mk('d')([mk('a')(y), mk('b')(x)]))


def inputs_swapped():
    x, y = Input(shape=(4,)), Input(shape=(4,))
    return keras.Model([y, x], mk('d')([x, y]))


def two_outputs():
    x = Input(shape=(4,))
    a = mk('a')(x)
    b = mk('b')(a)
    return keras.Model(x, [b, a])


def input_as_output():
    x = Input(shape=(4,))
    return keras.Model(x, [x, mk('a')(x)])


def shared_layer():
    x = Input(shape=(4,))
    a = mk('a')
    return keras.Model(x, mk('d')([a(x), a(mk('b')(a(x)))]))


def nested():
    i = Input(shape=(4,))
    inner = keras.Model(i, mk('b')(mk('a')(i)), name='inner')
    x = Input(shape=(4,))
    return keras.Model(x, mk('d')(inner(mk('c')(x))))


def nested_shared():
    i = Input(shape=(4,))
    inner = keras.Model(i, mk('b')(mk('a')(i)), name='inner')
    x = Input(shape=(4,))
    return keras.Model(x, mk('d')([inner(x), inner(mk('c')(inner(x)))]))


def nested_deep():
    i = Input(shape=(4,))
    m1 = keras.Model(i, mk('a')(i), name='m1')
    j = Input(shape=(4,))
    m2 = keras.Model(j, mk('b')([m1(j), j]), name='m2')
    x = Input(shape=(4,))
    return keras.Model(x, mk('d')([m2(m1(x)), m2(x)]))


def nested_two_inputs():
    i, j = Input(shape=(4,)), Input(shape=(4,))
    inner = keras.Model([i, j], mk('a')([j, mk('b')(i)]), name='inner')
    x = Input(shape=(4,))
    return keras.Model(x, inner([mk('c')(x), x]))


def nested_two_outputs():
    i = Input(shape=(4,))
    inner = keras.Model(i, [mk('a')(i), mk('b')(i)], name='inner')
    x = Input(shape=(4,))
    p, q = inner(x)
    return keras.Model(x, mk('d')([q, p]))


def nested_outputs_exposed():
    i = Input(shape=(4,))
    inner = keras.Model(i, [mk('a')(i), mk('b')(i)], name='inner')
    x = Input(shape=(4,))
    p, q = inner(x)
    return keras.Model(x, [q, p, mk('c')(q)])


def nested_output_unused():
    i = Input(shape=(4,))
    inner = keras.Model(i, [mk('a')(i), mk('b')(i)], name='inner')
    x = Input(shape=(4,))
    p, q = inner(x)
    return keras.Model(x, mk('c')(q))


def shared_with_other_model():
    """layers of the model are also used in another graph"""
    x, y = Input(shape=(4,)), Input(shape=(4,))
    a, b = mk('a'), mk('b')
    m = keras.Model(x, b(a(x)))
    keras.Model(y, a(b(mk('z')(y))))
    return m


def sub_graph():
    """a model that ends in the middle of a larger graph"""
    x = Input(shape=(4,))
    a = mk('a')(x)
    b = mk('b')(a)
    keras.Model(x, mk('c')(b))
    return keras.Model(x, b)


def name_clash():
    """a layer carries the name another one gets when it is converted repeatedly"""
    x = Input(shape=(4,))
    a, a0 = Op('p', name='a'), Op('q', name='a_0')
    return keras.Model(x, mk('d')([a(x), a0(a(a(x)))]))


def equal_names():
    i = Input(shape=(4,))
    inner = keras.Model(i, Op('p', name='a')(i), name='inner')
    x = Input(shape=(4,))
    return keras.Model(x, Op('q', name='a')(inner(x)))


GRAPHS = (chain, diamond, diamond_swapped, same_twice, skip, two_inputs, inputs_swapped, two_outputs, input_as_output, shared_layer, nested, nested_shared, nested_deep,
          nested_two_inputs, nested_two_outputs, nested_outputs_exposed, nested_output_unused, shared_with_other_model, sub_graph, name_clash, equal_names)


# ------------------------------------------------------------------ observations
def all_layers(m):
    out = []
    for l in m.layers:
        out.append(l)
        if isinstance(l, keras.Model):
            out += all_layers(l)
    return out


def snapshot(m):
    return [(l, l.name, list(l._inbound_nodes), list(l._outbound_nodes), [(w, _copyval(w)) for w in l.weights]) for l in all_layers(m)]


def unchanged(label, m, snap):
    now = snapshot(m)
    _same(label + ': layers', len(now), len(snap))
    for (l, n, i, o, w), (l1, n1, i1, o1, w1) in zip(now, snap):
        _is(label + ': same layer', l, l1)
        _same(label + ': name', n, n1)
        _same(label + ': inbound nodes', i, i1)
        _same(label + ': outbound nodes', o, o1)
        _same(label + ': weights', [b for a, b in w], [b for a, b in w1])


def structure(label, c, want_names=None):
    names = [l.name for l in c.layers if not isinstance(l, keras.layers.InputLayer)]
    _same(label + ': unique names', len(set(names)), len(names))
    _same(label + ': flat', [isinstance(l, keras.Model) for l in c.layers], [False for l in c.layers])
    if want_names is not None:
        _same(label + ': names', sorted(names), sorted(want_names))


NAMES = {'chain': 'a b c', 'diamond': 'a b c d', 'diamond_swapped': 'a b c d', 'same_twice': 'a d', 'skip': 'a b d', 'two_inputs': 'a b d', 'inputs_swapped': 'd', 'two_outputs': 'a b',
         'input_as_output': 'a', 'shared_layer': 'a a_0 a_1 b d', 'nested': 'a b c d', 'nested_shared': 'a a_0 a_1 b b_0 b_1 c d', 'nested_two_inputs': 'a b c',
         'nested_two_outputs': 'a b d', 'nested_outputs_exposed': 'a b c', 'shared_with_other_model': 'a b', 'sub_graph': 'a b',
         'equal_names': 'a a_0'}


def converted(g, nm):
    m = g()
    snap = snapshot(m)
    ins = [_sym(f'x{i}', shape=(None, 4)) for i in range(len(m.inputs))]
    ins = ins[0] if len(ins) == 1 else ins
    want = m(ins)
    c = convert_model(m)
    _same('value', c(ins), want)
    _same('inputs', len(c.inputs), len(m.inputs))
    _same('outputs', len(c.outputs), len(m.outputs))
    w = NAMES.get(nm)
    structure('converted', c, w.split() if w else None)
    unchanged('source', m, snap)
    _same('source value', m(ins), want)
    _same('input shapes', [tuple(t.shape) for t in c.inputs], [tuple(t.shape) for t in m.inputs])
    # converting again starts over
    d = convert_model(m)
    _same('second conversion', [l.name for l in d.layers if not isinstance(l, keras.layers.InputLayer)], [l.name for l in c.layers if not isinstance(l, keras.layers.InputLayer)])


def ob_dataflow():
    for g in GRAPHS:
        _case(g.__name__, converted, g, g.__name__)


def transformed(g, nm):
    """every layer is replaced exactly once per call node"""
    m = g()
    n = {}

    def xf(l):
        if isinstance(l, Op) and not l.tag.startswith('new_'):
            n[l.tag] = n.get(l.tag, 0) + 1
            return Op('new_' + l.tag, name=l.name)
        return l
    ins = [_sym(f'x{i}', shape=(None, 4)) for i in range(len(m.inputs))]
    ins = ins[0] if len(ins) == 1 else ins
    c = convert_model(m, layer_xformer=xf)
    for l in all_layers(m):
        if isinstance(l, Op) and not l.tag.startswith('new_'):
            l.tag = 'new_' + l.tag
    _same('value', c(ins), m(ins))
    w = NAMES.get(nm)
    structure('converted', c, w.split() if w else None)
    if w:
        for t in set([x.split('_')[0] for x in w.split()]):
            if nm not in ('equal_names',):
                _same(f'conversions of {t}', n.get(t, 0), len([x for x in w.split() if x.split('_')[0] == t]))


def ob_transformed():
    for g in GRAPHS:
        _case(g.__name__, transformed, g, g.__name__)


def ob_removed_layers():
    """a transformer returning None removes the layer"""
    x = Input(shape=(4,))
    a = mk('a')(x)
    b = mk('b')(a)
    m = keras.Model(x, mk('d')([b, mk('b2')(mk('c')(b)), a]))
    c = convert_model(m, layer_xformer=lambda l: None if l is not None and l.name in ('b', 'c') else l)
    v = _sym('v', shape=(None, 4))
    a = op('a', v)
    _same('value', c(v), op('d', a, op('b2', a), a))


def ob_layer_to_model():
    """a transformer may replace a layer by a (nested) model"""
    x = Input(shape=(4,))
    m = keras.Model(x, mk('d')([mk('a')(x), mk('b')(x)]))
    built = []

    def xf(l):
        if isinstance(l, Op) and l.name == 'a':
            t = Input(shape=(4,))
            return keras.Model(t, Op('a2', name='s')(Op('a1', name='r')(t)))
        return l
    c = convert_model(m, layer_xformer=xf)
    v = _sym('v', shape=(None, 4))
    _same('value', c(v), op('d', op('a2', op('a1', v)), op('b', v)))
    structure('converted', c, ['r', 's', 'b', 'd'])


def ob_names():
    n = Namer()
    got = [n.next_name(x) for x in ('a', 'b', 'a', 'a', 'b', 'a_0', 'c')]
    _same('first use keeps the name', [got[0], got[1], got[6]], ['a', 'b', 'c'])
    _same('unique', len(set(got)), 7)
    _same('derived', [g.startswith(o) for g, o in zip(got, ('a', 'b', 'a', 'a', 'b', 'a_0', 'c'))], [True] * 7)
    for seq in (('a_1', 'a', 'a'), ('a', 'a_1', 'a'), ('a_0', 'a', 'a'), ('a', 'a', 'a_0'), ('a', 'a', 'a', 'a_1', 'a_0'), ('a_1', 'a_0', 'a', 'a', 'a'), ('a_0', 'a_0', 'a', 'a', 'a_0_0'), ('a_2', 'a', 'a', 'a', 'a'),
                ('a', 'a_0', 'a', 'a_1', 'a', 'a'), ('b_a', 'a', 'b_a', 'b', 'a'), ('', '', 'a'), ('a_x', 'a', 'a_x', 'a', 'a')):
        n = Namer()
        got = [n.next_name(x) for x in seq]
        _same(f'unique {seq}', len(set(got)), len(seq))
        _same(f'derived {seq}', [g.startswith(o) for g, o in zip(got, seq)], [True] * len(seq))
        _same(f'first {seq}', got[0], seq[0])
    k = Namer()
    _same('namers are independent', k.next_name('a'), 'a')


# ------------------------------------------------------------------ proxies of quantized models
def aconf(**kw):
    d = dict(init_bw=3., skip_dims=(0,), rnd_strategy='floor', exact_q_value=True, dtype=None, bw_clip=(-23, 23), trainable=True, regularizer=None, minmax_record=True)
    d.update(kw)
    return d


def hd(n, name, **k):
    kw = dict(aconf())
    kw.pop('minmax_record')
    kw['skip_dims'] = None
    return HDense(n, kq_conf=kw, paq_conf=aconf(), name=name, **k)


def traced(m):
    """the derived widths are the subject of C07/C12: any will do here"""
    for l in all_layers(m):
        if hasattr(l, 'paq'):
            l.paq.get_bits_exact = widths(l)
        if hasattr(l, 'kq'):
            _setvar(l.kq.fbw, _sym(l.name + '_kf', lo=2, hi=6, integral=True, shape=tuple(_shape_of(l.kq.fbw))))


def widths(l):
    sh = tuple(_shape_of(l.paq.fbw))
    return lambda ref=None, pos_only=False: (_sym(l.name + '_k', lo=0, hi=1, integral=True, shape=sh), _sym(l.name + '_i', lo=1, hi=4, integral=True, shape=sh), _sym(l.name + '_fb', lo=2, hi=6, integral=True, shape=sh))


def hgq_model():
    x = Input(shape=(4,))
    q = HQuantize(paq_conf=aconf(), name='q')(x)
    a = hd(5, 'a', activation='relu')(q)
    b = hd(5, 'b')(a)
    s = HAdd(paq_conf=aconf(), name='s')([b, a])
    d = PDropout(0.5, name='drop')(s)
    t = HActivation('tanh', paq_conf=aconf(), name='t')(d)
    return keras.Model(x, t)


def ob_quantized_model():
    m = hgq_model()
    traced(m)
    snap = snapshot(m)
    p = to_proxy_model(m)
    unchanged('source', m, snap)
    structure('proxy', p, ['q', 'a', 'a_quantizer', 're_lu', 'a_relu_quantizer', 'b', 'b_quantizer', 's', 's_quantizer', 't', 't_quantizer'] if False else None)
    kinds = {l.name: _clsname(l) for l in p.layers if not isinstance(l, keras.layers.InputLayer) and not isinstance(l, ReLU)}
    _same('layers', kinds, {'q': 'FixedPointQuantizer', 'a': 'Dense', 'a_quantizer': 'FixedPointQuantizer', 'a_relu_quantizer': 'FixedPointQuantizer', 'b': 'Dense', 'b_quantizer': 'FixedPointQuantizer',
                            's': 'Add', 's_quantizer': 'FixedPointQuantizer', 't': 'Activation', 't_quantizer': 'FixedPointQuantizer'})
    by = {l.name: l for l in p.layers}
    par = lambda n: [t.node.layer.name for t in by[n]._inbound_nodes[0].keras_inputs]
    _same('sum inputs', par('s'), ['b_quantizer', 'a_relu_quantizer'])
    _same('b input', par('b'), ['a_relu_quantizer'])
    _same('dropout is transparent', par('t'), ['s_quantizer'])
    _same('quantizer follows', [par('b_quantizer'), par('s_quantizer'), par('t_quantizer'), par('a_quantizer')], [['b'], ['s'], ['t'], ['a']])
    _same('used once', [len(l._inbound_nodes) for l in p.layers], [1 for l in p.layers])
    _same('output', p.outputs[0].node.layer.name, 't_quantizer')


def ob_identities():
    x = Input(shape=(4,))
    m = keras.Model(x, Activation('linear', name='l2')(Dropout(0.3, name='dr')(Dense(3, name='e')(Activation('linear', name='l1')(x)))))
    p = to_proxy_model(m)
    v = _sym('v', shape=(None, 4))
    _same('value', p(v), m(v))
    structure('proxy', p, ['e'])
    y = Input(shape=(4,))
    m = keras.Model(y, Activation('tanh', name='th')(Dense(3, name='e')(y)))
    p = to_proxy_model(m)
    _same('other activations stay', p(v), m(v))
    structure('tanh', p, ['e', 'th'])
    _is('nothing stays nothing', ProxyLayerXFormer()(None), None)


class Weird(keras.layers.Layer):
    pass


def refuse(l):
    x = Input(shape=(4,))
    to_proxy_model(keras.Model(x, l(x)))


def ob_unsupported():
    _assume_installed('hls4ml')
    _raises('custom layer', lambda: refuse(Weird()))
    _raises('arbitrary layer', lambda: refuse(mk('a')))
    _raises('dense', lambda: refuse(Dense(3)), False)
    _raises('relu', lambda: refuse(ReLU()), False)


def passive(mkl, shape, kind, attrs):
    l = mkl()
    x = Input(shape=shape)
    m = keras.Model(x, l(x))
    p = to_proxy_model(m)
    n = p.outputs[0].node.layer
    _same('class', _clsname(n), kind)
    _same('name', n.name, l.name)
    for a in attrs:
        _same(a, getattr(n, a), getattr(l, a))
    v = _sym('v', shape=(None,) + shape)
    _same('value', p(v), m(v))
    _isnot('new layer', n, l)


def ob_passive_layers():
    _case('flatten', passive, lambda: PFlatten(), (4, 3), 'Flatten', ('data_format',))
    _case('reshape', passive, lambda: PReshape((2, 6)), (4, 3), 'Reshape', ('target_shape',))
    _case('permute', passive, lambda: PPermute((2, 1)), (4, 3), 'Permute', ('dims',))
    P = ('pool_size', 'strides', 'padding', 'data_format', 'pool_function')
    _case('max pool 2d', passive, lambda: PMaxPooling2D((2, 3), strides=(1, 2), padding='same'), (6, 8, 3), 'MaxPooling2D', P)
    _case('average pool 1d', passive, lambda: PAveragePooling1D(2), (6, 3), 'AveragePooling1D', P)


def ob_concatenate():
    x, y = Input(shape=(4,)), Input(shape=(3,))
    m = keras.Model([x, y], PConcatenate(axis=-1)([y, x]))
    p = to_proxy_model(m)
    u, v = _sym('u', shape=(None, 4)), _sym('v', shape=(None, 3))
    _same('value', p([u, v]), tf.concat([v, u], axis=-1))


def ob_proxy_twice():
    """nothing leaks from one conversion into the next"""
    m = hgq_model()
    traced(m)
    p, q = to_proxy_model(m), to_proxy_model(m)
    _same('same names', sorted([l.name for l in p.layers if not isinstance(l, (keras.layers.InputLayer, ReLU))]), sorted([l.name for l in q.layers if not isinstance(l, (keras.layers.InputLayer, ReLU))]))
    for l in p.layers:
        for k in q.layers:
            _isnot('distinct layers', l, k)
