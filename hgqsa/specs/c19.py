import numpy as np
import tensorflow as tf
from tensorflow import keras
from keras.layers import Input
from HGQ.proxy.fixed_point_quantizer import FixedPointQuantizer
from HGQ.proxy.precision_derivation import activation_kif_forward, get_arr_container, get_config, get_input_kifs, get_produced_kif, get_request_kif, get_requested_kif, get_result_kifRS, get_whatever_quantizer, merge_precision, register_qconf
from HGQ.utils import apf_to_tuple, tuple_to_apf

BIG = 65535


def isym(n, lo=-20, hi=20):
    return _sym(n, lo=lo, hi=hi, integral=True, shape=())


def quantizer(kif=None, rnd='TRN', sat='WRAP', name=None):
    q = FixedPointQuantizer(1, 8, 4, rnd, sat, name=name)
    if kif is not None:
        _force(q, result_t_kif=kif)
    return q


def producer(tag, shape=(4,), k=None):
    """a tensor quantized to some type"""
    kif = (_sym('k' + tag, bit=True, integral=True, shape=()) if k is None else k, isym('i' + tag), isym('f' + tag))
    q = quantizer(kif)
    return kif, q(Input(shape=shape))


def covers(label, got, k, i, f):
    """the type found is at least (k, i, f)"""
    gk, gi, gf = got
    _require(label + ': sign', gk >= k)
    _require(label + ': integer bits', gi >= i)
    _require(label + ': fractional bits', gf >= f)


def ob_quantizer_produces():
    """a quantizer's own type, when its input is unlimited"""
    kif, y = producer('')
    covers('type', get_produced_kif(y.node.layer), *kif)


def dense(units, shape, use_bias, tag=''):
    kif, y = producer(tag, shape)
    l = keras.layers.Dense(units, use_bias=use_bias)
    l(y)
    return kif, l


def conv(rank, shape, use_bias, **kw):
    kif, y = producer('', shape)
    l = keras.layers.Conv1D(4, 3, use_bias=use_bias, **kw) if rank == 1 else keras.layers.Conv2D(4, (3, 2), use_bias=use_bias, **kw)
    l(y)
    return kif, l


def opaque_containers():
    # the smallest type of an array is some type, a function of that array
    def container(arr, silent=False):
        t = 'b' if arr.ndim == 1 else 'w'
        return _sym('k' + t, bit=True, integral=True, shape=()), isym('i' + t), isym('f' + t)
    _opaque('HGQ.proxy.precision_derivation.get_arr_container', via=container)


def linear(l, kif, terms, bias):
    opaque_containers()
    kern = _sym('kernel', shape=tuple(_shape_of(l.kernel)))
    _setvar(l.kernel, kern)
    k, i, f = kif
    wk, wi, wf = get_arr_container(kern)
    grow = 0
    while 2 ** grow < terms:
        grow = grow + 1
    if bias == 'none':
        got = get_produced_kif(l)
        covers('products summed', got, max(k, wk), i + wi + grow, f + wf)
        return
    b = _sym('bias', shape=tuple(_shape_of(l.bias))) if bias == 'some' else tf.zeros(tuple(_shape_of(l.bias)))
    _setvar(l.bias, b)
    got = get_produced_kif(l)
    if bias == 'zero':
        covers('products summed', got, max(k, wk), i + wi + grow, f + wf)
        return
    bk, bi, bf = get_arr_container(b)
    covers('products summed', got, max(k, wk), i + wi + grow, f + wf)
    if bias == 'some':
        anyb = np.any(b != 0)
        gk, gi, gf = got
        _require('sign of the bias', gk >= tf.cast(np.any(b < 0), 'float32'))
        _require('integer bits of the bias', gi >= np.where(anyb, bi + 1, gi))
        _require('carry of the bias', gi >= np.where(anyb, i + wi + grow + 1, gi))
        _require('fractional bits of the bias', gf >= np.where(anyb, bf, gf))


def d_case(units, shape, bias):
    kif, l = dense(units, shape, bias != 'none')
    linear(l, kif, shape[-1], bias)


def c_case(rank, shape, bias, terms, kw):
    kif, l = conv(rank, shape, bias != 'none', **kw)
    linear(l, kif, terms, bias)


def ob_linear():
    """dense and convolution layers"""
    for bias in ('none', 'zero', 'some'):
        for n in (1, 2, 3, 5, 8, 17):
            for u in (1, 4, 7):
                _case(f'dense {n}x{u} {bias}', d_case, u, (n,), bias)
        _case(f'dense sequence {bias}', d_case, 4, (3, 5), bias)
        _case(f'conv1d {bias}', c_case, 1, (9, 5), bias, 15, {})
        _case(f'conv1d strided {bias}', c_case, 1, (9, 5), bias, 15, dict(strides=2, padding='same'))
        _case(f'conv1d groups {bias}', c_case, 1, (9, 6), bias, 9, dict(groups=2))
        _case(f'conv2d {bias}', c_case, 2, (9, 8, 3), bias, 18, {})
        _case(f'conv2d dilated {bias}', c_case, 2, (9, 8, 1), bias, 6, dict(dilation_rate=2))


def merge(kind, n):
    kifs, ys = [], []
    for j in range(n):
        a, y = producer(str(j))
        kifs.append(a)
        ys.append(y)
    l = {'add': keras.layers.Add, 'sub': keras.layers.Subtract, 'cat': keras.layers.Concatenate}[kind]()
    l(ys)
    grow = 0
    while kind != 'cat' and 2 ** grow < n:
        grow = grow + 1
    got = get_produced_kif(l)
    for k, i, f in kifs:
        covers('operand', got, k, i + grow, f)
    if kind == 'sub':
        _require('differences are signed', got[0] >= 1)
    _same('operands in order', [tuple(x) for x in get_input_kifs(l)], [tuple(x) for x in kifs])


def ob_merge():
    """sums, differences, concatenations"""
    for n in (2, 3, 4, 5):
        _case(f'add {n}', merge, 'add', n)
        _case(f'concatenate {n}', merge, 'cat', n)
    _case('subtract', merge, 'sub', 2)


def dot(axes, n, shapes):
    a, y = producer('0', shapes[0])
    b, z = producer('1', shapes[1])
    l = keras.layers.Dot(axes)
    l.axes = axes
    l([y, z])
    grow = 0
    while 2 ** grow < n:
        grow = grow + 1
    covers('products summed', get_produced_kif(l), max(a[0], b[0]), a[1] + b[1] + grow, a[2] + b[2])


def ob_dot():
    for n in (1, 2, 3, 8, 9):
        _case(f'vector {n}', dot, 1, n, ((n,), (n,)))
        _case(f'matrix {n}', dot, (2, 1), n, ((3, n), (n, 2)))
        _case(f'matrix {n} negative axis', dot, -1, n, ((3, n), (2, n)))


def unary(mk, shape, extra):
    kif, y = producer('', shape)
    l = mk()
    l(y)
    k, i, f = kif
    covers('kept', get_produced_kif(l), k, i, f + extra)
    _same('input', tuple(get_input_kifs(l)[0]), tuple(kif))


L = keras.layers
UNARY = {
    'reshape': (lambda: L.Reshape((2, 6)), (4, 3), 0),
    'flatten': (lambda: L.Flatten(), (4, 3), 0),
    'permute': (lambda: L.Permute((2, 1)), (4, 3), 0),
    'maxpool1d': (lambda: L.MaxPool1D(2), (4, 3), 0),
    'maxpool2d': (lambda: L.MaxPool2D(2), (4, 4, 3), 0),
    'avgpool1d 2': (lambda: L.AvgPool1D(2), (4, 3), 1),
    'avgpool1d 3': (lambda: L.AvgPool1D(3), (4, 3), 2),
    'avgpool1d 4': (lambda: L.AvgPool1D(4, strides=1, padding='same'), (4, 3), 2),
    'avgpool2d 2': (lambda: L.AvgPool2D(2), (4, 4, 3), 2),
    'avgpool2d 3x2': (lambda: L.AvgPool2D((3, 2)), (4, 4, 3), 3),
    'avgpool2d 3x1': (lambda: L.AvgPool2D((3, 1)), (4, 4, 3), 2),
    'avgpool2d 1': (lambda: L.AvgPool2D(1), (4, 4, 3), 0),
}


def ob_passive():
    """layers that move or average values"""
    for n in UNARY:
        _case(n, unary, *UNARY[n])


class Unknown(keras.layers.Layer):
    pass


def unknown(mk):
    kif, y = producer('')
    l = mk()
    l(y)
    k, i, f = get_produced_kif(l)
    _same('signed', k, 1)
    _require('unlimited integer bits', i >= 1000)
    _require('unlimited fractional bits', f >= 1000)


def ob_unknown():
    """layers nothing is known about"""
    _case('foreign layer', unknown, lambda: Unknown())
    x = Input(shape=(4,))
    k, i, f = get_produced_kif(x.node.layer)
    _same('inputs: signed', k, 1)
    _require('inputs: integer bits', i >= 1000)
    _require('inputs: fractional bits', f >= 1000)


def act(mk, soft):
    kif, y = producer('')
    l = mk()
    l(y)
    if soft:
        k, i, f = get_produced_kif(l)
        _require('probabilities reach one', i >= 1)
        _require('any fraction', f >= 1000)
        return
    seen = []

    def forward(func, k, i, f):
        seen.append((func, k, i, f))
        return _sym('ok', bit=True, integral=True), isym('oi'), isym('of')
    _opaque('HGQ.proxy.precision_derivation.activation_kif_forward', via=forward)
    got = get_produced_kif(l)
    if len(seen) > 0:
        _same('image of the input type under the activation', seen, [(l,) + tuple(kif)])
        covers('image', got, _sym('ok', bit=True, integral=True), isym('oi'), isym('of'))


def ob_activation():
    for a in ('relu', 'tanh', 'sigmoid', 'linear', 'elu'):
        _case(a, act, lambda: L.Activation(a), False)
    _case('softmax', act, lambda: L.Activation('softmax'), True)
    _case('Softmax layer', act, lambda: L.Softmax(), True)
    _case('ReLU layer', act, lambda: L.ReLU(), False)


def image(k, i, f):
    seen, conts = [], []
    t = (_sym('kc', bit=True, integral=True, shape=()), isym('ic'), isym('fc'))

    def container(arr, silent=False):
        conts.append(arr)
        return t
    _opaque('HGQ.proxy.precision_derivation.get_arr_container', via=container)

    def func(x):
        seen.append(x)
        return 3 * x * x + 1
    got = activation_kif_forward(func, k, i, f)
    n = 2 ** (k + i + f)
    codes = np.arange(n) * 2.**-f - k * 2.**i
    _same('every code of the input type', seen, [codes])
    _same('type of the image', conts, [3 * codes * codes + 1])
    covers('type of the image', got, *t)


def ob_image():
    """image of a type under an activation"""
    for k, i, f in ((0, 1, 2), (1, 1, 2), (1, 3, 4), (0, 0, 4), (0, 4, 0), (1, -1, 3), (0, 5, -2), (1, 5, 5), (1, 0, 7)):
        _case(f'{k} {i} {f}', image, k, i, f)


def narrowing(rnd, src, elems):
    """values of type src are quantized to the types in elems: what was in range before is in range, and rounded alike, afterwards"""
    q0 = quantizer(src)
    ks = [e[0] for e in elems]
    kn = np.array(ks)
    ints = np.array([k + i for k, i, f in elems])
    bits = np.array([k + i + f for k, i, f in elems])
    q = FixedPointQuantizer(1, 8, 4, rnd, 'WRAP')
    _setvar(q.keep_negative, kn)
    _setvar(q.integers, ints)
    _setvar(q.bits, bits)
    q(q0(Input(shape=(len(elems),))))
    got = get_produced_kif(q)
    nk, ni, nb = q.keep_negative.numpy(), q.integers.numpy(), q.bits.numpy()
    k0, i0, f0 = src
    carry = 0 if rnd in ('TRN', 'TRN_ZERO') else 1
    for j in range(len(elems)):
        k, i, f = elems[j]
        wide = k + i + f > 0
        c = np.where(f < f0, carry, 0)
        need = np.minimum(i, i0 + c)
        fr = nb[j] - ni[j]
        _require('no bits stay no bits', wide | (nb[j] <= 0))
        live = wide & (np.minimum(k, k0) + need + np.minimum(f, f0) > 0)
        _require('sign', ~live | (nk[j] >= np.minimum(k, k0)))
        _require('rounded to the same grid', ~live | ((fr == f) | ((fr >= f0) & (f >= f0))))
        _require('integer bits', ~live | (ni[j] - nk[j] >= need))
        _require('width', ~live | (nb[j] > 0))
        _require('type: sign', ~live | (got[0] >= np.minimum(k, k0)))
        _require('type: integer bits', ~live | (got[1] >= need))
        _require('type: fractional bits', ~live | (got[2] >= np.minimum(f, f0)))


def ob_narrow():
    """a quantizer wider than its input is narrowed"""
    b = lambda n: _sym(n, bit=True, integral=True, shape=())
    any0 = (b('k0'), isym('i0', -6, 6), isym('f0', -6, 6))
    for rnd in ('TRN', 'RND', 'RND_CONV'):
        _case(f'{rnd}: one type', narrowing, rnd, any0, [(b('ka'), isym('ia', -6, 6), isym('fa', -6, 6))])
        if _thorough():
            _case(f'{rnd}: two types', narrowing, rnd, any0, [(b('ka'), isym('ia', -6, 6), isym('fa', -6, 6)), (b('kb'), isym('ib', -6, 6), isym('fb', -6, 6))])
    # every order of the widths
    i, f = isym('i', 4, 9), isym('f', 4, 9)
    D = (-1, 0, 1, 3)
    for k0, ka, kb in ((1, 1, 1), (0, 0, 0), (1, 0, 1), (0, 1, 0)) if _thorough() else ((1, 1, 1), (0, 0, 0)):
        for da in D:
            for db in D:
                for ga in D:
                    for gb in D if _thorough() else (-1, 0, 3):
                        _case(f'{k0}{ka}{kb} integers {da} {db} fractions {ga} {gb}', narrowing, 'RND', (k0, i, f), [(ka, i + da, f + ga), (kb, i + db, f + gb)])


def get_q(tag, rnd, sat):
    kif = (_sym('k' + tag, bit=True, integral=True, shape=()), isym('i' + tag), isym('f' + tag))
    return kif, quantizer(kif, rnd, sat)


MODES = (('TRN', 'WRAP', 0), ('RND', 'WRAP', 1), ('TRN', 'SAT', 0), ('RND', 'SAT', 1), ('RND', 'SAT_SYM', 1))


def request(rnd, sat, guard, via):
    kif, q = get_q('', rnd, sat)
    x = Input(shape=(4, 3))
    l = L.Dense(5)
    y = l(x)
    if via is not None:
        y = via()(y)
    q(y)
    k, i, f = get_requested_kif(l)
    if sat == 'WRAP':
        _require('integer bits', i >= kif[1])
    else:
        _require('an overflow must be seen', i >= 1000)
    _require('fractional bits, the rounding bit included', f >= kif[2] + guard)


def request_two(first, second):
    a, p = get_q('0', *first[:2])
    b, q = get_q('1', *second[:2])
    l = L.Dense(5)
    y = l(Input(shape=(4, 3)))
    p(y)
    q(y)
    k, i, f = get_requested_kif(l)
    _require('fractional bits of the first reader', f >= a[2] + first[2])
    _require('fractional bits of the second reader', f >= b[2] + second[2])
    _require('integer bits of the first reader', i >= (a[1] if first[1] == 'WRAP' else 1000))
    _require('integer bits of the second reader', i >= (b[1] if second[1] == 'WRAP' else 1000))


def unlimited(mk):
    l = L.Dense(5)
    y = l(Input(shape=(4, 3)))
    if mk is not None:
        mk()(y)
    k, i, f = get_requested_kif(l)
    _require('unlimited integer bits', i >= 1000)
    _require('unlimited fractional bits', f >= 1000)


def mixed():
    """one reader is a quantizer, the other one sees everything"""
    kif, q = get_q('', 'TRN', 'WRAP')
    l = L.Dense(5)
    y = l(Input(shape=(4, 3)))
    q(y)
    L.Dense(2)(y)
    k, i, f = get_requested_kif(l)
    _require('unlimited integer bits', i >= 1000)
    _require('unlimited fractional bits', f >= 1000)


def through_two():
    """a passive layer with two readers"""
    a, p = get_q('0', 'TRN', 'WRAP')
    b, q = get_q('1', 'RND', 'WRAP')
    l = L.Dense(5)
    y = L.Flatten()(l(Input(shape=(4, 3))))
    p(y)
    q(y)
    k, i, f = get_requested_kif(l)
    for kif, g in ((a, 0), (b, 1)):
        _require('integer bits', i >= kif[1])
        _require('fractional bits', f >= kif[2] + g)


VIA = {'directly': None, 'reshape': lambda: L.Reshape((20,)), 'flatten': lambda: L.Flatten()}
READERS = {'nothing': None, 'dense': lambda: L.Dense(3), 'activation': lambda: L.Activation('tanh'), 'flatten, then nothing': lambda: L.Flatten(),
           'pooling': lambda: L.AvgPool1D(2), 'foreign layer': lambda: Unknown()}


def ob_request():
    """what the readers of a value can make use of"""
    for rnd, sat, g in MODES:
        for v in VIA:
            _case(f'{rnd} {sat} {v}', request, rnd, sat, g, VIA[v])
    for a in MODES:
        for b in MODES:
            _case(f'two readers {a[0]} {a[1]} {b[0]} {b[1]}', request_two, a, b)
    for r in READERS:
        _case('read by ' + r, unlimited, READERS[r])
    _case('quantizer and another reader', mixed)
    _case('passive layer with two readers', through_two)


def alloc(got, have, want):
    """a value of type have, of which want is used"""
    k, i, f = got
    _require('sign', k >= have[0])
    _require('integer bits', i >= np.minimum(have[1], want[1]))
    _require('fractional bits', f >= np.minimum(have[2], want[2]))


def ob_allocate():
    """precision of a data path"""
    b = lambda n: _sym(n, bit=True, integral=True, shape=())
    have, want = (b('k0'), isym('i0'), isym('f0')), (b('k1'), isym('i1'), isym('f1'))
    alloc(merge_precision(have, want), have, want)
    alloc(merge_precision(have, (1, BIG, BIG)), have, (1, BIG, BIG))


def opaque_kifs():
    b = lambda n: _sym(n, bit=True, integral=True, shape=())
    have, want = (b('pk'), isym('pi'), isym('pf')), (1, isym('ri'), isym('rf'))
    _opaque('HGQ.proxy.precision_derivation.get_produced_kif', via=lambda layer: have)
    _opaque('HGQ.proxy.precision_derivation.get_requested_kif', via=lambda layer: want)
    return have, want


def fused(rnd, sat, mk):
    kif, q = get_q('', rnd, sat)
    l = mk()
    q(l(Input(shape=(4, 3))))
    opaque_kifs()
    k, i, f, R, S = get_result_kifRS(l)
    _same('type of the quantizer', (k, i, f), tuple(kif))
    _same('rounding', R, rnd)
    _same('overflow', S, sat)


def unfused(kind, mk):
    b = lambda n: _sym(n, bit=True, integral=True, shape=())
    l = mk()
    y = l(Input(shape=(4, 3)))
    if kind == 'two readers':
        get_q('0', 'RND', 'WRAP')[1](y)
        get_q('1', 'RND', 'WRAP')[1](y)
    elif kind == 'mixed types':
        q = FixedPointQuantizer(1, 8, 4, 'RND', 'WRAP')
        _setvar(q.bits, np.array([isym('b', 3, 9), isym('b', 3, 9) + 1]))
        _setvar(q.integers, np.array([isym('n', 1, 3), isym('n', 1, 3)]))
        _setvar(q.keep_negative, np.array([1, 1]))
        q(y)
    elif kind == 'another layer':
        L.Dense(3)(y)
    have, want = opaque_kifs()
    k, i, f, R, S = get_result_kifRS(l)
    alloc((k, i, f), have, want)
    _same('truncated', R, 'TRN')
    _same('wrapped', S, 'WRAP')


def inputs(modes):
    qs = []
    x = Input(shape=(4, 3))
    j = 0
    for rnd, sat, g in modes:
        kif, q = get_q(str(j), rnd, sat)
        q(x)
        qs.append((kif, g))
        j = j + 1
    k, i, f, R, S = get_result_kifRS(x.node.layer)
    for kif, g in qs:
        _require('sign', k >= kif[0])
        _require('integer bits', i >= kif[1])
        _require('fractional bits', f >= kif[2] + (g if len(qs) > 1 else 0))
    if len(modes) > 1:
        _same('rounded later', R, 'TRN')
    else:
        _same('rounding', R, modes[0][0])
    _same('overflow', S, modes[0][1])


def ob_result():
    """type of a layer's result"""
    for n, mk in (('dense', lambda: L.Dense(5)), ('reshape', lambda: L.Reshape((12,)))):
        for rnd, sat, g in MODES:
            _case(f'{n}: one uniform reader {rnd} {sat}', fused, rnd, sat, mk)
        for kind in ('two readers', 'mixed types', 'another layer', 'no reader'):
            _case(f'{n}: {kind}', unfused, kind, mk)
    T, R, S = ('TRN', 'WRAP', 0), ('RND', 'WRAP', 1), ('RND', 'SAT', 1)
    for ms in ([T], [R], [S], [T, T], [T, R], [R, T], [R, R], [S, S], [('TRN', 'SAT', 0), S]):
        _case('input ' + ' '.join(m[0] + m[1] for m in ms), inputs, ms)
    _raises('an input cannot both wrap and saturate', lambda: inputs([T, S]))


def split(s):
    k, i, f = apf_to_tuple(s)
    return k, i, f


def types(rnd, sat, offset, bias):
    opaque_containers()
    b = lambda n: _sym(n, bit=True, integral=True, shape=())
    have = (b('pk'), isym('pi', 1, 9), isym('pf', 1, 9))
    res = (b('rk'), isym('ri', 1, 9), isym('rf', 1, 9), rnd, sat)
    l = L.Dense(3, use_bias=bias)
    l(Input(shape=(4,)))
    _opaque('HGQ.proxy.precision_derivation.get_produced_kif', via=lambda layer: have)
    _opaque('HGQ.proxy.precision_derivation.get_result_kifRS', via=lambda layer: res)
    conf = get_config(l, offset)
    wk, wi, wf = _sym('kw', bit=True, integral=True, shape=()), isym('iw'), isym('fw')
    _same('weights', conf['weight_t'], tuple_to_apf((wk, wi, wf)))
    _same('result', conf['result_t'], tuple_to_apf(res[:3], rnd, sat))
    for n in ('accum_t', 'bias_t') if bias else ('accum_t',):
        k, i, f = split(conf[n])
        if offset is None:
            _require(n + ': fractional bits', f >= have[2])
        else:
            _require(n + ': fractional bits', f >= np.minimum(have[2], res[2] + offset))
        if sat == 'WRAP':
            _require(n + ': integer bits', k + i >= np.minimum(res[0] + res[1], have[0] + have[1]))
        else:
            _require(n + ': sign', k >= have[0])
            _require(n + ': integer bits', i >= have[1])


def ob_types():
    """types of a layer with a kernel"""
    for sat in ('WRAP', 'SAT', 'SAT_SYM'):
        for rnd in ('TRN', 'RND'):
            for off in (None, 0, 3):
                for bias in (True, False):
                    _case(f'{rnd} {sat} offset {off} bias {bias}', types, rnd, sat, off, bias)


def table(a, fn):
    b = lambda n: _sym(n, bit=True, integral=True, shape=())
    ins = (b('ik'), isym('ii', 1, 6), isym('if', 0, 6))
    res = (b('rk'), isym('ri', 1, 9), isym('rf', 1, 9), 'RND', 'SAT')
    l = L.Activation(a)
    l(Input(shape=(4,)))
    l.activation = fn
    _opaque('HGQ.proxy.precision_derivation.get_input_kifs', via=lambda layer: (ins,))
    _opaque('HGQ.proxy.precision_derivation.get_result_kifRS', via=lambda layer: res)
    conf = get_config(l)
    _same('entries', conf['table_t'], tuple_to_apf(res[:3], 'RND', 'SAT'))
    k, i, f = split(conf['result_t'])
    covers('result', (k, i, f), *res[:3])
    n = {'tanh': 8 * 2.**ins[2], 'sigmoid': 16 * 2.**ins[2]}.get(a, 2.**(ins[0] + ins[1] + ins[2]))
    _require('an entry per input', conf['table_size'] >= n)


def plain():
    res = (_sym('rk', bit=True, integral=True, shape=()), isym('ri', 1, 9), isym('rf', 1, 9), 'TRN', 'WRAP')
    l = L.Flatten()
    l(Input(shape=(4, 3)))
    _opaque('HGQ.proxy.precision_derivation.get_result_kifRS', via=lambda layer: res)
    _same('result only', get_config(l), {'result_t': tuple_to_apf(res[:3], 'TRN', 'WRAP')})


def ob_others():
    """types of layers without a kernel"""
    for a in ('tanh', 'sigmoid', 'elu'):
        _case(a, table, a, getattr(keras.activations, a))
    _case('flatten', plain)


def huge(n, i, f, ok):
    res = (1, i, f, 'TRN', 'WRAP')
    _opaque('HGQ.proxy.precision_derivation.get_result_kifRS', via=lambda layer: res)
    _opaque('HGQ.proxy.precision_derivation.get_produced_kif', via=lambda layer: (1, i, f))
    l = L.Flatten() if n == 'flatten' else L.Dense(3)
    l(Input(shape=(4,)))
    if n != 'flatten':
        _opaque('HGQ.proxy.precision_derivation.get_arr_container', via=lambda arr, silent=False: (1, 2, 3))
    if ok:
        get_config(l)
    else:
        _raises('rejected', lambda: get_config(l))


def ob_huge():
    """types no hardware has"""
    for n in ('flatten', 'dense'):
        for i, f in ((BIG, BIG), (BIG, 3), (3, BIG), (100, 3), (3, 100), (BIG, -BIG + 100), (60, 40)):
            _case(f'{n} {i} {f}', huge, n, i, f, False)
        for i, f in ((3, 5), (20, 20), (-3, 10), (12, -4)):
            _case(f'{n} {i} {f}', huge, n, i, f, True)


def register(pos):
    conf = {'result_t': _obj('conf')}
    _opaque('HGQ.proxy.precision_derivation.get_config', via=lambda layer, accum_fp_max_offset=None: {'result_t': ('for', layer.name), 'offset': accum_fp_max_offset})
    x = Input(shape=(4, 3))
    if pos == 'before':
        q = quantizer(name='q')
        l = L.Flatten(name='lay')
        l(q(x))
    elif pos == 'after':
        q = quantizer(name='q')
        l = L.Flatten(name='lay')
        q(l(x))
    elif pos == 'far after':
        q = quantizer(name='q')
        l = L.Flatten(name='lay')
        q(L.Reshape((12,))(l(x)))
    elif pos == 'branches':
        q = quantizer(name='q')
        l = L.Flatten(name='lay')
        y = l(x)
        L.Dense(3)(y)
        q(y)
    elif pos == 'itself':
        q = l = quantizer(name='lay')
        l(x)
    q.overrides = {'layers': {'other': {'a': 1}, 'lay': {'parallelization_factor': 7}}}
    _is('some quantizer next to it', get_whatever_quantizer(l), q)
    register_qconf(l, 5)
    _same('kept under its name', q.overrides, {'layers': {'other': {'a': 1}, 'lay': {'parallelization_factor': 7, 'result_t': ('for', 'lay'), 'offset': 5}}})


def ready():
    q = quantizer(name='q')
    l = L.Flatten(name='lay')
    q(l(Input(shape=(4, 3))))
    q.overrides = {'layers': {}}
    l.proxy_ready = True
    register_qconf(l)
    _same('left alone', q.overrides, {'layers': {}})


def ob_register():
    """the types found reach the quantizer that carries them"""
    for p in ('before', 'after', 'far after', 'branches', 'itself'):
        _case(p, register, p)
    _case('already configured', ready)


def container(elems):
    """elems: (sign, p) for an odd multiple of 2**-p, or None for 0"""
    xs, need = [], []
    for j in range(len(elems)):
        e = elems[j]
        if e is None:
            xs.append(0.)
            continue
        s, p = e
        m = _sym(f'm{j}', lo=0, hi=2**20, integral=True, shape=())
        a = (2 * m + 1) * 2.**-p
        xs.append(s * a)
        need.append((s, p, a))
    x = np.array(xs)
    k, i, f = get_arr_container(x)
    for s, p, a in need:
        _require('fractional bits', f >= p)
        if s < 0:
            _require('sign', k >= 1)
            _require('integer bits, negative value', i >= np.ceil(np.log2(a)))
        else:
            _require('integer bits', i >= np.floor(np.log2(a)) + 1)


def ob_container():
    """smallest type of an array"""
    for p in (0, 3, -2, 7, 1, 14, -6):
        _case(f'+{p}', container, [(1, p)])
        _case(f'-{p}', container, [(-1, p)])
    for q in (0, 4, -3, 11, 2):
        _case(f'+2 -{q}', container, [(1, 2), (-1, q)])
        _case(f'-2 0 +{q}', container, [(-1, 2), None, (1, q)])
