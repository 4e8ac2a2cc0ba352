_noenv()
import numpy as np
import tensorflow as tf
from tensorflow import keras
from keras.layers import Input
from HGQ.proxy.fixed_point_quantizer import FixedPointQuantizer, gfixed_quantizer
from HGQ.proxy.precision_derivation import get_produced_kif
from HGQ.proxy.unary_lut import UnaryLUT, xfr_to_unary_lut

L = keras.layers


def isym(n, lo=1, hi=9):
    return _sym(n, lo=lo, hi=hi, integral=True, shape=())


TYPES = ((0, 2, 1), (1, 2, 1), (1, 0, 3), (0, 0, 3), (1, 3, -1), (0, 3, -1), (1, -1, 3), (0, -1, 3), (1, 0, 0), (0, 1, 0), (1, 2, 2), (0, 4, 0), (1, 4, 0), (1, -2, 6))
MODES = (('TRN', 'WRAP'), ('RND', 'SAT'), ('RND', 'WRAP'), ('TRN', 'SAT'), ('RND_CONV', 'SAT_SYM'))


def table(t, mode):
    k, i, f = t
    a = _sym('a', shape=())
    act = lambda v: 3 * v * v + v + a    # no two codes alike
    out = (_sym('ok', bit=True, integral=True, shape=()), isym('oi'), isym('of'))
    lut = UnaryLUT.from_activation(act, kif_in=t, kifRS_out=out + mode)
    n = 2 ** (k + i + f)
    _same('one entry per code', lut.table.shape[0], n)
    want = lambda v: gfixed_quantizer(act(v), out[0], out[0] + out[1] + out[2], out[0] + out[1], mode[0], mode[1])
    for c in range(-n // 2 if k else 0, n // 2 if k else n):
        x = c * 2.**-f
        _same(f'code {c}', lut(np.array([x])), np.array([want(x)]))
    _same('type of the output', tuple(get_produced_kif(lut)), out)


def ob_table():
    """entry of every code"""
    for t in TYPES:
        _case(f'{t[0]} {t[1]} {t[2]}', table, t, ('RND', 'SAT'))
    for m in MODES:
        _case(f'{m[0]} {m[1]}', table, (1, 1, 1), m)


def unbuilt(t):
    """a restored layer has room for every entry before its weights are loaded"""
    lut = UnaryLUT(t, (1, 2, 3))
    lut.build((None, 4))
    _same('entries', tuple(lut.table.shape), (2 ** (t[0] + t[1] + t[2]),))


def ob_unbuilt():
    for t in TYPES:
        _case(f'{t[0]} {t[1]} {t[2]}', unbuilt, t)


def derived(mode):
    """types taken from the neighbours"""
    q = FixedPointQuantizer(1, 4, 2, 'TRN', 'WRAP')
    l = L.Activation('tanh')
    l(q(Input(shape=(4,))))
    out = (_sym('ok', bit=True, integral=True, shape=()), isym('oi'), isym('of'))
    _opaque('HGQ.proxy.precision_derivation.get_input_kifs', via=lambda layer: ((1, 1, 2),))
    _opaque('HGQ.proxy.precision_derivation.get_result_kifRS', via=lambda layer: out + mode)
    a = _sym('a', shape=())
    act = lambda v: 3 * v * v + v + a
    lut = UnaryLUT.from_activation(act)
    ref = UnaryLUT.from_activation(act, kif_in=(1, 1, 2), kifRS_out=out + mode)
    _same('table', lut.table.numpy(), ref.table.numpy())
    _same('types', (tuple(lut.kif_in), tuple(lut.kif_out)), ((1, 1, 2), out))


def ob_derived():
    for m in MODES:
        _case(f'{m[0]} {m[1]}', derived, m)


def sizes(lim, n, ok):
    k, i, f = 0, n - 1, 1
    if ok:
        UnaryLUT((k, i, f), (1, 2, 3)).build((None, 4))
    else:
        _raises('refused', lambda: UnaryLUT((k, i, f), (1, 2, 3)))


def ob_limit():
    """largest table"""
    for n in (1, 4, 11, 12):
        _case(f'{n} bits', sizes, 12, n, True)
    for n in (13, 14, 20):
        _case(f'{n} bits', sizes, 12, n, False)
    _raises('no input', lambda: UnaryLUT((0, 0, 0), (1, 2, 3)))
    _raises('no output', lambda: UnaryLUT((1, 2, 3), (0, 0, 0)))


def seen_lut(layer, kif, size):
    calls = []
    done = _obj('lut')

    def make(cls, activation, kif_in=None, kifRS_out=None):
        calls.append((activation, kif_in, kifRS_out))
        return done
    _opaque('HGQ.proxy.unary_lut.UnaryLUT.from_activation', via=make)
    _opaque('HGQ.proxy.precision_derivation.get_input_kifs', via=lambda l: kif)
    got = xfr_to_unary_lut(layer, size)
    return got, calls, done


def placed(mk):
    l = mk()
    l(Input(shape=(4,)))
    return l


def kept(mk, kif):
    l = placed(mk)
    got, calls, done = seen_lut(l, kif, 1024)
    _is('kept', got, l)


def replaced(a, kif, size):
    l = placed(lambda: L.Activation(a))
    got, calls, done = seen_lut(l, (kif,), size)
    _is('replaced', got, done)
    _same('table of that activation and input', [(c[0] is l, tuple(c[1])) for c in calls], [(True, kif)])


def ob_replace():
    """which layers become tables"""
    A = keras.activations
    for n, f in (('softmax', A.softmax), ('relu', A.relu), ('linear', A.linear)):
        _case(n, kept, lambda: L.Activation(f), ((1, 2, 3),))
    _case('dense', kept, lambda: L.Dense(3), ((1, 2, 3),))
    _case('softmax layer', kept, lambda: L.Softmax(), ((1, 2, 3),))
    _case('relu layer', kept, lambda: L.ReLU(), ((1, 2, 3),))
    _case('two inputs', kept, lambda: L.Activation(A.tanh), ((1, 2, 3), (1, 2, 3)))
    _case('quantizer', kept, lambda: FixedPointQuantizer(1, 8, 4), ((1, 2, 3),))
    for n, f in (('tanh', A.tanh), ('sigmoid', A.sigmoid), ('elu', A.elu)):
        for kif in ((1, 2, 3), (0, 4, 0), (1, -1, 5), (0, 0, 6)):
            b = kif[0] + kif[1] + kif[2]
            _case(f'{n} {kif[0]} {kif[1]} {kif[2]} fits', replaced, f, kif, 2 ** b)
            _case(f'{n} {kif[0]} {kif[1]} {kif[2]} fits easily', replaced, f, kif, 2 ** b + 5)
            _case(f'{n} {kif[0]} {kif[1]} {kif[2]} too large', toolarge, f, kif, 2 ** b - 1)


def toolarge(a, kif, size):
    l = placed(lambda: L.Activation(a))
    got, calls, done = seen_lut(l, (kif,), size)
    _is('kept', got, l)
