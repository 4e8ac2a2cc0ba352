import tensorflow as tf
import keras
from keras.layers import Input
from HGQ import get_default_kq_conf, get_default_paq_conf, set_default_kq_conf, set_default_paq_conf
from HGQ.layers import HActivation, HAdd, HConv1D, HConv1DBatchNorm, HConv2D, HConv2DBatchNorm, HDense, HDenseBatchNorm, HQuantize

KKEYS = ('init_bw', 'skip_dims', 'rnd_strategy', 'exact_q_value', 'dtype', 'bw_clip', 'trainable', 'regularizer')
AKEYS = KKEYS + ('minmax_record',)
GET = {'kernel': get_default_kq_conf, 'activation': get_default_paq_conf}
SET = {'kernel': set_default_kq_conf, 'activation': set_default_paq_conf}
KEYS = {'kernel': KKEYS, 'activation': AKEYS}
OTHER = {'kernel': 'activation', 'activation': 'kernel'}


def conf(kind, tag='', **kw):
    d = {k: 'v_' + tag + k for k in KEYS[kind]}
    d.update(dict(init_bw=_sym('init' + tag, lo=-10, hi=10), skip_dims=(0,), rnd_strategy='standard_round', exact_q_value=True, dtype=None, bw_clip=(-20, 20), trainable=True, regularizer=None))
    if kind == 'activation':
        d['minmax_record'] = True
    d.update(kw)
    return d


class Source(keras.layers.Layer):
    def call(self, x):
        return x

    def compute_output_shape(self, s):
        return s


LAYERS = {
    'dense': (lambda **kw: HDense(4, **kw), (3,)),
    'dense_bn': (lambda **kw: HDenseBatchNorm(4, **kw), (3,)),
    'conv1d': (lambda **kw: HConv1D(4, 2, **kw), (5, 3)),
    'conv1d_bn': (lambda **kw: HConv1DBatchNorm(4, 2, **kw), (5, 3)),
    'conv2d': (lambda **kw: HConv2D(4, 2, **kw), (5, 6, 3)),
    'conv2d_bn': (lambda **kw: HConv2DBatchNorm(4, 2, **kw), (5, 6, 3)),
    'quantize': (lambda **kw: HQuantize(**kw), (4, 3)),
    'act': (lambda **kw: HActivation('tanh', **kw), (4, 3)),
    'relu': (lambda **kw: HActivation('relu', **kw), (4, 3)),
    'add': (lambda **kw: HAdd(**kw), (4, 3)),
}
KERNEL = ('dense', 'dense_bn', 'conv1d', 'conv1d_bn', 'conv2d', 'conv2d_bn')


def used(kind, **kw):
    """a layer built, run, traced and saved"""
    mk, shape = LAYERS[kind]
    l = mk(**kw)
    s = Source()
    y = s(Input(shape=shape))
    s.act_bw = _sym('bw', lo=0, hi=40, shape=(1,) + shape)
    n = 2 if kind == 'add' else 1
    l([y, y] if n == 2 else y)
    x = _sym('x', shape=(5,) + shape)
    l([x, x] if n == 2 else x, training=True)
    l([x, x] if n == 2 else x, training=False)
    l.reset_minmax()
    l.get_config()
    return l


def fresh(kind):
    a = GET[kind]()
    before = _copyval(a)
    b = GET[kind]()
    _isnot('every read gives a copy of its own', a, b)
    _same('reads agree', b, a)
    _same('exactly the known settings', sorted(a.keys()), sorted(KEYS[kind]))
    other = _copyval(GET[OTHER[kind]]())
    for k in KEYS[kind]:
        a[k] = 'modified'
    a['new'] = 1
    _same('modifying a copy leaves the default alone', GET[kind](), before)
    _same('modifying a copy leaves other copies alone', b, before)
    _same('modifying a copy leaves the other default alone', GET[OTHER[kind]](), other)
    del b['init_bw']
    b.clear()
    _same('emptying a copy leaves the default alone', GET[kind](), before)


def ob_read():
    for kind in ('kernel', 'activation'):
        _case(kind, fresh, kind)


def attr(l, kind):
    return l.kq_config if kind == 'kernel' else l.paq_config


def setting(kind):
    other = _copyval(GET[OTHER[kind]]())
    old = HDense(4)
    oldc = _copyval(attr(old, kind))
    c = conf(kind)
    want = _copyval(c)
    SET[kind](c)
    _same('the new default is what was set', GET[kind](), want)
    _same('the other default is unchanged', GET[OTHER[kind]](), other)
    _same('existing layers keep their configuration', attr(old, kind), oldc)
    _same('the dictionary supplied is not altered', c, want)
    d = GET[kind]()
    _isnot('still copies', d, c)
    for k in KEYS[kind]:
        d[k] = 'modified'
    _same('modifying a copy leaves the new default alone', GET[kind](), want)
    SET[kind](conf(kind, '2', trainable=False))
    _same('the last setting counts', GET[kind](), conf(kind, '2', trainable=False))


def ob_set():
    for kind in ('kernel', 'activation'):
        _case(kind, setting, kind)


def effect(kind, layer):
    c = conf(kind)
    own = conf(kind, 'own', bw_clip=(-3, 3))
    SET[kind](c)
    mk, shape = LAYERS[layer]
    l = mk()
    _same('layers without a configuration use the default', attr(l, kind), c)
    key = {'kernel': 'kq_conf', 'activation': 'paq_conf'}[kind]
    m = mk(**{key: own}) if layer not in ('act', 'relu', 'quantize', 'add') or kind == 'activation' else None
    if m is not None:
        _same('a configuration of its own takes precedence', attr(m, kind), own)
    _same('the default is still the default', GET[kind](), c)
    built = used(layer)
    q = built.kq if kind == 'kernel' else built.paq
    _same('the quantizer built has the default bitwidth', q.init_bw, c['init_bw'])
    _same('the quantizer built has the default limits', tuple(q.bw_clip), c['bw_clip'])
    if m is not None:
        k = {key: own}
        built = used(layer, **k)
        q = built.kq if kind == 'kernel' else built.paq
        _same('the quantizer built has its own bitwidth', q.init_bw, own['init_bw'])
        _same('the quantizer built has its own limits', tuple(q.bw_clip), own['bw_clip'])
    SET[kind](conf(kind, 'later'))
    _same('later settings do not reach existing layers', attr(l, kind), c)


def ob_effect():
    """defaults reach the layers created afterwards"""
    for layer in LAYERS:
        _case(f'activation {layer}', effect, 'activation', layer)
        if layer in KERNEL:
            _case(f'kernel {layer}', effect, 'kernel', layer)


def rejected(kind):
    before, other = _copyval(GET[kind]()), _copyval(GET[OTHER[kind]]())
    good = conf(kind)
    for k in KEYS[kind]:
        bad = {a: b for a, b in good.items() if a != k}
        _raises(f'without {k}', lambda: SET[kind](bad))
        bad = {('x' + a if a == k else a): b for a, b in good.items()}
        _raises(f'misspelt {k}', lambda: SET[kind](bad))
    bad = dict(good)
    bad['extra'] = 1
    _raises('an additional key', lambda: SET[kind](bad))
    _raises('empty', lambda: SET[kind]({}))
    _raises('not a dictionary', lambda: SET[kind](list(good.items())))
    _raises('none', lambda: SET[kind](None))
    _raises('a configuration of the other kind', lambda: SET[kind](conf(OTHER[kind])))
    _raises('a good one', lambda: SET[kind](good), False)
    try:
        SET[kind]({'init_bw': 3})
    except AssertionError:
        pass
    _same('a refused setting changes nothing', GET[kind](), before)
    _same('a refused setting does not touch the other default', GET[OTHER[kind]](), other)


def ob_reject():
    for kind in ('kernel', 'activation'):
        _case(kind, rejected, kind)


def untouched(layer, strategy, kstrategy='standard_round'):
    k, a = conf('kernel', 'k', rnd_strategy=kstrategy), conf('activation', 'a', rnd_strategy=strategy)
    kw = dict(paq_conf=a)
    if layer in KERNEL:
        kw['kq_conf'] = k
    kb, ab = _copyval(k), _copyval(a)
    dk, da = _copyval(GET['kernel']()), _copyval(GET['activation']())
    l = used(layer, **kw)
    _same('activation configuration supplied by the user', a, ab)
    _same('kernel configuration supplied by the user', k, kb)
    m = used(layer, **kw)
    _same('a second layer sharing it behaves alike', m.paq.rnd_strategy, l.paq.rnd_strategy)
    _same('activation configuration shared by layers', a, ab)
    _same('kernel configuration shared by layers', k, kb)
    _same('kernel default', GET['kernel'](), dk)
    _same('activation default', GET['activation'](), da)


def ob_untouched():
    """building and using layers does not alter configurations"""
    for layer in LAYERS:
        for s in ('standard_round', 'auto', 'floor', 'stochastic_round', 'fast_uniform_noise_injection', 3):
            _case(f'{layer} {s}', untouched, layer, s)
    for layer in KERNEL:
        for s in ('floor', 'stochastic_round'):
            _case(f'{layer} kernel {s}', untouched, layer, 'standard_round', s)


def defaults_kept(layer, strategy):
    SET['activation'](conf('activation', rnd_strategy=strategy))
    dk, da = _copyval(GET['kernel']()), _copyval(GET['activation']())
    l = used(layer)
    _same('kernel default', GET['kernel'](), dk)
    _same('activation default', GET['activation'](), da)
    m = used(layer)
    _isnot('layers do not share their configuration', l.paq_config, m.paq_config)
    _isnot('layers do not share their kernel configuration', l.kq_config, m.kq_config)
    l.paq_config['bw_clip'] = 'modified'
    l.kq_config['bw_clip'] = 'modified'
    _same('modifying the configuration of a layer leaves others alone', m.paq_config['bw_clip'], da['bw_clip'])
    _same('modifying the configuration of a layer leaves the defaults alone', (GET['kernel'](), GET['activation']()), (dk, da))


def ob_defaults():
    """building and using layers with the defaults does not alter the defaults"""
    for layer in LAYERS:
        for s in ('standard_round', 'auto', 'floor'):
            _case(f'{layer} {s}', defaults_kept, layer, s)
