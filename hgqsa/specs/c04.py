import tensorflow as tf
from HGQ.quantizer import HGQ
from HGQ.quantizer.quantizer import q_round
from HGQ.utils.utils import strategy_dict

NAMES = ('standard_round', 'stochastic_round', 'fast_uniform_noise_injection', 'floor')


def mkq(strategy, skip_dims=None, minmax=False, exact=True, shape=(None, 3, 4), clip=(-23, 23)):
    q = HGQ(init_bw=2., skip_dims=skip_dims, rnd_strategy=strategy, exact_q_value=exact, dtype=None, bw_clip=clip, trainable=True, regularizer=None, minmax_record=minmax)
    q.build(shape)
    return q


def grid(x, f, strategy):
    if strategy in ('floor', 3):
        return tf.floor(x * 2.**f) / 2.**f
    return tf.floor(x * 2.**f + 0.5) / 2.**f


def inference(strategy):
    for exact in (True, False):
        for minmax in (False, True):
            q = mkq(strategy, exact=exact, minmax=minmax)
            fbw = _sym('fbw', lo=-23, hi=23)
            _setvar(q.fbw, fbw)
            x = _sym('x', shape=(None, 3, 4))
            want = grid(x, tf.round(fbw), strategy)
            _same('forward', q.forward(x, training=False), want)
            _same('forward training=None', q.forward(x), want)
            _same('forward, positional', q.forward(x, False, minmax), want)
            _same('call', q(x, training=False), want)
            _same('call, default', q(x), want)
            if minmax:
                _same('recording', q(x, training=False, record_minmax=True), want)


def ob_forward():
    for s in NAMES + (0, 1, 2, 3):
        _case(f'strategy={s}', inference, s)


def clipped(strategy):
    q = mkq(strategy, clip=(-3, 5))
    fbw = _sym('fbw', lo=-23, hi=23)
    _setvar(q.fbw, fbw)
    x = _sym('x', shape=(None, 3, 4))
    f = tf.round(tf.minimum(tf.maximum(fbw, -3.), 5.))
    _same('call after clipping', q(x, training=False), grid(x, f, strategy))


def ob_call_uses_clipped_bits():
    for s in NAMES:
        _case(f'strategy={s}', clipped, s)


def bias(strategy, shape, loc, dims):
    for exact in (True, False):
        q = mkq(strategy, exact=exact, shape=shape, skip_dims=(0,))
        fbw = _sym('fbw', lo=-23, hi=23, shape=(1,) + shape[1:])
        _setvar(q.fbw, fbw)
        b = _sym('bias', shape=(4,))
        f = tf.round(tf.reduce_max(fbw, axis=dims))
        want = grid(b, f, strategy)
        if loc == -1:
            _same('default location', q.bias_forward(b, False), want)
            _same('default training', q.bias_forward(b), want)
        _same('bias', q.bias_forward(b, False, loc), want)
        _same('bias, keywords', q.bias_forward(b, training=False, channel_loc=loc), want)


def ob_bias():
    for s in NAMES:
        _case(f'{s} dense', bias, s, (None, 4), -1, [0])
        _case(f'{s} channels last', bias, s, (None, 3, 5, 4), -1, [0, 1, 2])
        _case(f'{s} channels first', bias, s, (None, 4, 3, 5), 1, [0, 2, 3])


def bad_loc(loc):
    q = mkq('floor', shape=(None, 3, 4), skip_dims=(0,))
    b = _sym('bias', shape=(4,))
    _raises(f'channel_loc={loc}', lambda: q.bias_forward(b, False, loc))


def ob_bias_bad_channel_loc():
    _case('0', bad_loc, 0)
    _case('2', bad_loc, 2)


def ob_names():
    for n in range(4):
        _same(f'code of {NAMES[n]}', HGQ(1., None, NAMES[n]).rnd_strategy, n)
        _same(f'code {n}', HGQ(1., None, n).rnd_strategy, n)
        _same(f'strategy_dict {NAMES[n]}', strategy_dict[NAMES[n]], n)
    _same('default', HGQ(1., None).rnd_strategy, 3)
    _same('no further names', len(strategy_dict), 4)


def ob_round_codes():
    x = _sym('x', shape=(3,))
    _same('0', q_round(x, 0), tf.floor(x + 0.5))
    _same('default', q_round(x), tf.floor(x + 0.5))
    _same('3', q_round(x, 3), tf.floor(x))
    _raises('4', lambda: q_round(x, 4))
    _raises('-1', lambda: q_round(x, -1))
