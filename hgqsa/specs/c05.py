import numpy as np
import tensorflow as tf
from HGQ.quantizer import HGQ
from HGQ.quantizer.quantizer import q_round


def mkq(strategy, exact, shape=(None, 3, 4), skip=None, minmax=False):
    q = HGQ(init_bw=2., skip_dims=skip, rnd_strategy=strategy, exact_q_value=exact, dtype=None, bw_clip=None, trainable=True, regularizer=None, minmax_record=minmax)
    q.build(shape)
    return q


def rounded(x, f, s):
    z = x * 2.**f
    if s == 0:
        return tf.floor(z + 0.5) / 2.**f
    if s == 3:
        return tf.floor(z) / 2.**f
    u = tf.random.uniform(tf.shape(z))
    if s == 1:
        return tf.where(u < z - tf.floor(z), tf.floor(z) + 1., tf.floor(z)) / 2.**f
    return tf.where(tf.abs(z) <= 0.5, 0., z + u - 0.5) / 2.**f


def value(s):
    for exact in (True, False):
        for rec in (False, True):
            q = mkq(s, exact, minmax=rec)
            fbw = _sym('fbw', lo=-20, hi=20)
            _setvar(q.fbw, fbw)
            x = _sym('x', shape=(None, 3, 4))
            f = tf.round(fbw) if exact else fbw
            _same(f'forward exact={exact} rec={rec}', q.forward(x, True, rec), rounded(x, f, s))
            _same(f'call exact={exact} rec={rec}', q(x, training=True, record_minmax=rec), rounded(x, f, s))


def ob_value():
    for s in (0, 1, 2, 3):
        _case(f'strategy={s}', value, s)


def bias_value(s):
    for exact in (True, False):
        q = mkq(s, exact, (None, 4), (0,))
        fbw = _sym('fbw', lo=-20, hi=20, shape=(1, 4))
        _setvar(q.fbw, fbw)
        b = _sym('b', shape=(4,))
        f = tf.reduce_max(fbw, axis=[0])
        if exact:
            f = tf.round(f)
        _same(f'exact={exact}', q.bias_forward(b, True), rounded(b, f, s))


def ob_bias_value():
    for s in (0, 1, 2, 3):
        _case(f'strategy={s}', bias_value, s)


def gradient(s):
    _gradmode(True)
    for exact in (True, False):
        for rec in (False, True):
            q = mkq(s, exact, minmax=rec)
            fbw = _sym('fbw', lo=-20, hi=20)
            _setvar(q.fbw, fbw)
            x = _sym('x', shape=(None, 3, 4))
            y = q.forward(x, True, rec)
            err = _value(y) - x
            lab = f'exact={exact} rec={rec}'
            _same(f'input {lab}', _grad(y, x), 1.)
            _same(f'bitwidth {lab}', _grad(y, fbw), -np.log(2) * err)
            y = q.forward(x, False, rec)
            _same(f'inference, input {lab}', _grad(y, x), 1.)
            _same(f'inference, bitwidth {lab}', _grad(y, fbw), 0.)


def ob_gradient():
    for s in (0, 1, 2, 3):
        _case(f'strategy={s}', gradient, s)


def bias_gradient(s):
    _gradmode(True)
    for exact in (True, False):
        q = mkq(s, exact, (None, 4), (0, 1))
        fbw = _sym('fbw', lo=-20, hi=20, shape=(4,))
        q.fbw = fbw
        b = _sym('b', shape=(4,))
        y = q.bias_forward(b, True)
        err = _value(y) - b
        _same(f'input exact={exact}', _grad(y, b), 1.)
        _same(f'bitwidth exact={exact}', _grad(y, fbw), -np.log(2) * err)
        y = q.bias_forward(b, False)
        _same(f'inference input exact={exact}', _grad(y, b), 1.)
        _same(f'inference bitwidth exact={exact}', _grad(y, fbw), 0.)


def ob_bias_gradient():
    for s in (0, 1, 2, 3):
        _case(f'strategy={s}', bias_gradient, s)


def bias_gradient_shared(s):
    """the bitwidths a bias shares get their gradient through the width the bias is quantized with, and no other way"""
    _gradmode(True)
    for exact in (True, False):
        for loc, shape, axes in ((-1, (1, 5, 4), [0, 1]), (1, (1, 4, 5), [0, 2]), (-1, (1, 4), [0])):
            q = mkq(s, exact, shape, (0,))
            fbw = _sym('fbw', lo=-20, hi=20, shape=shape)
            _setvar(q.fbw, fbw)
            b = _sym('b', shape=(4,))
            y = q.bias_forward(b, True, loc)
            err = _value(y) - b
            lab = f'exact={exact} channel={loc} shape={shape}'
            _same(f'input {lab}', _grad(y, b), 1.)
            _same(f'bitwidth {lab}', _grad(y, fbw), -np.log(2) * err * _grad(tf.reduce_max(fbw, axis=axes), fbw))
            y = q.bias_forward(b, False, loc)
            _same(f'inference bitwidth {lab}', _grad(y, fbw), 0.)


def ob_bias_gradient_shared():
    for s in (0, 1, 2, 3):
        _case(f'strategy={s}', bias_gradient_shared, s)


def ob_stochastic_neighbours():
    x = _sym('x', shape=(3,))
    y = q_round(x, 1)
    # one of the two neighbouring integers
    _same('neighbours', (y - tf.floor(x)) * (y - tf.floor(x) - 1.), 0.)
    # the upper one exactly when the uniform draw falls below the fractional part
    u = tf.random.uniform(tf.shape(x))
    _same('probability', y - tf.floor(x), tf.where(u < x - tf.floor(x), 1., 0.))


def noise(x):
    d = q_round(x, 2) - x
    _require('upper', d <= 0.5)
    _require('lower', d >= -0.5)


def ob_noise_bounded():
    _case('x>=0', noise, _sym('x', lo=0, shape=(3,)))
    _case('x<=0', noise, _sym('x', hi=0, shape=(3,)))


def ob_randomness_only_in_training():
    x = _sym('x', shape=(None, 3, 4))
    for s in (0, 1, 2, 3):
        for exact in (True, False):
            q = mkq(s, exact)
            _clear_events()
            q(x, training=False)
            _same(f'draws at inference {s} {exact}', len(_events('random')), 0)
            q(x, training=True)
            _same(f'draws in training {s} {exact}', len(_events('random')), 1 if s in (1, 2) else 0)
