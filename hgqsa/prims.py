"""Primitives used by the library stubs (hgqsa/stubs) and by the specifications."""
from __future__ import annotations

from . import lib
from .program import Cls, DictCell, Ext, ListCell, ObjCell, PyFn, Undecided, VarCell
from .terms import (C, FALSE, N, NONE, TRUE, UNDEF, Atom, Ite, Ref, Tup, add, apply, div, mul, nceil, num, of_atom, sub, sym)


def prim(name):
    def d(fn):
        lib.BUILTINS[name] = PyFn(name, fn)
        return fn
    return d


@prim('_sa_autoname')
def p_autoname(it, st, a, kw):
    c = st.heap[a[0].id]
    n = it.__dict__.setdefault('autonames', {})
    k = c.cls.name.lower()
    n[k] = n.get(k, -1) + 1
    return C(f'{k}_{n[k]}')


@prim('_sa_single')
def p_single(it, st, a, kw):
    items = it.iterate(a[0], st)
    return items[0] if len(items) == 1 else it.new_list(st, items)


@prim('_sa_weights')
def p_weights(it, st, a, kw):
    c = st.heap[a[0].id]
    out, seen = [], set()

    def visit(v):
        if isinstance(v, Ref) and v.id not in seen:
            seen.add(v.id)
            x = st.heap[v.id]
            if isinstance(x, VarCell):
                out.append(v)
            elif isinstance(x, ObjCell) and x is not c and not _is_layer(x):
                for y in x.attrs.values():
                    visit(y)
            elif isinstance(x, ListCell):
                for y in x.items:
                    visit(y)
        elif isinstance(v, Ite):
            visit(v.h)
            visit(v.l)
    for v in c.attrs.values():
        visit(v)
    out.sort(key=lambda r: r.id)
    return it.new_list(st, out)


def _is_layer(c):
    return c.cls is not None and any(k.name in ('Layer', 'Node', 'KerasTensor') for k in c.cls.mro)


@prim('_sa_add_weight')
def p_add_weight(it, st, a, kw):
    self, name, shape, init, reg, trainable, constraint, dtype = a
    c = st.heap[self.id]
    lname = c.attrs.get('_name')
    vname = name.v if isinstance(name, C) and isinstance(name.v, str) else 'w'
    val = None
    init = it.simp(init, st.pc)
    shp = shape
    if isinstance(shape, Ref):
        shp = Tup(it.iterate(shape, st))
    if isinstance(init, N) and init.atom is not None and init.atom.op == 'fn' and init.atom.args and init.atom.args[0] == 'keras.initializers.Constant':
        try:
            val = init.atom.args[1]
        except IndexError:
            val = None
    if val is None:
        it.counter += 1
        ln = lname.v if isinstance(lname, C) else 'layer'
        val = sym(f'init:{ln}/{vname}#{it.counter}')
    meta = {'shape': shp, 'trainable': TRUE if trainable == NONE else trainable, 'reg': reg, 'constraint': constraint, 'owner': self}
    if isinstance(shp, Tup):
        val = lib.with_shape(it, val, shp)
    r = it.alloc(st, VarCell(val, vname + ':0', meta))
    it.event(st, 'add_weight', self, name, shp, init, reg, meta['trainable'], constraint)
    return r


@prim('_sa_event')
def p_event(it, st, a, kw):
    it.event(st, a[0].v, *[it.freeze(x, st) for x in a[1:]])
    return NONE


@prim('_sa_norm_tuple')
def p_norm_tuple(it, st, a, kw):
    n = int(a[1].const)

    def f(x):
        if isinstance(x, N):
            return Tup([x] * n)
        return Tup(it.iterate(x, st))
    return apply(f, a[0]) if isinstance(a[0], Ite) else f(a[0])


def _conv_len(n, k, s, d, pad):
    if n == NONE:
        return NONE
    eff = add(mul(sub(k, num(1)), d), num(1))
    if pad in ('same', 'causal'):
        return nceil(div(n, s))
    return nceil(div(add(sub(n, eff), num(1)), s))


@prim('_sa_conv_shape')
def p_conv_shape(it, st, a, kw):
    o = st.heap[a[0].id].attrs
    sh = it.iterate(a[1], st)
    pad = o['padding']
    if not isinstance(pad, C) or not isinstance(o['data_format'], C):
        raise Undecided('symbolic padding')
    first = o['data_format'].v == 'channels_first'
    sp = sh[2:] if first else sh[1:-1]
    out = [_conv_len(n, k, s, d, pad.v) for n, k, s, d in zip(sp, *[it.iterate(o[q], st) for q in ('kernel_size', 'strides', 'dilation_rate')])]
    return Tup([sh[0], o['filters']] + out) if first else Tup([sh[0]] + out + [o['filters']])


@prim('_sa_pool_shape')
def p_pool_shape(it, st, a, kw):
    o = st.heap[a[0].id].attrs
    sh = it.iterate(a[1], st)
    pad = o['padding']
    if not isinstance(pad, C) or not isinstance(o['data_format'], C):
        raise Undecided('symbolic padding')
    first = o['data_format'].v == 'channels_first'
    sp = sh[2:] if first else sh[1:-1]
    out = [_conv_len(n, k, s, num(1), pad.v) for n, k, s in zip(sp, it.iterate(o['pool_size'], st), it.iterate(o['strides'], st))]
    return Tup([sh[0], sh[1]] + out) if first else Tup([sh[0]] + out + [sh[-1]])


@prim('_sa_flat_shape')
def p_flat_shape(it, st, a, kw):
    sh = it.iterate(a[0], st)
    n = num(1)
    for x in sh[1:]:
        if x == NONE:
            return Tup([sh[0], NONE])
        n = mul(n, x)
    return Tup([sh[0], n])


@prim('_sa_reshape_shape')
def p_reshape_shape(it, st, a, kw):
    sh = it.iterate(a[0], st)
    tgt = it.iterate(a[1], st)
    neg = [i for i, x in enumerate(tgt) if isinstance(x, N) and x.const is not None and x.const < 0]
    if neg:
        n = num(1)
        for x in sh[1:]:
            n = mul(n, x)
        for i, x in enumerate(tgt):
            if i not in neg:
                n = div(n, x)
        tgt = [n if i in neg else x for i, x in enumerate(tgt)]
    return Tup([sh[0]] + list(tgt))


@prim('_sa_concat_shape')
def p_concat_shape(it, st, a, kw):
    shs = [it.iterate(x, st) for x in it.iterate(a[0], st)]
    ax = a[1]
    if not (isinstance(ax, N) and ax.const is not None):
        raise Undecided('symbolic concat axis')
    ax = int(ax.const) % len(shs[0])
    out = list(shs[0])
    for s in shs[1:]:
        if out[ax] == NONE or s[ax] == NONE:
            out[ax] = NONE
        else:
            out[ax] = add(out[ax], s[ax])
    return Tup(out)


@prim('_sa_uninterpreted')
def p_unint(it, st, a, kw):
    vals = [it.freeze(it.deref(x, st), st) for x in a[1:]]
    return lib.lift_any(lambda *xs: of_atom(Atom('fn', (a[0].v,) + xs)), *vals) if hasattr(lib, 'lift_any') else apply(lambda *xs: of_atom(Atom('fn', (a[0].v,) + xs)), *vals)


@prim('_sa_collect_layers')
def p_collect(it, st, a, kw):
    """layers of a functional model, depth ordered as keras does (inputs first)"""
    order, seen = [], set()
    stop = {x.id for x in it.iterate(a[1], st) if isinstance(x, Ref)}

    def tens(t):
        node = st.heap[t.id].attrs['node']
        visit(node, t.id in stop)

    def visit(n, is_in):
        if n.id in seen:
            return
        seen.add(n.id)
        c = st.heap[n.id]
        if not is_in:
            for t in it.iterate(c.attrs['keras_inputs'], st):
                tens(t)
        l = c.attrs['layer']
        if l not in order:
            order.append(l)
    for t in it.iterate(a[0], st):
        tens(t)
    return it.new_list(st, order)


@prim('_sa_shape')
def p_shape(it, st, a, kw):
    """declare the shape of a tensor symbol"""
    return lib.with_shape(it, a[0], Tup(it.iterate(a[1], st)))
    return a[0]


def m_add_supported(it, st, args, kw):
    d = args[0]
    names = sorted({p.rsplit('.', 1)[1] for p in it.stubs if p.startswith('qkeras.') and not p.endswith('.BaseQuantizer')})
    for n in names:
        for p in (f'qkeras.{n}', f'qkeras.quantizers.{n}'):
            if p in it.stubs:
                st.heap[d.id] = st.heap[d.id].set(C(n), it.stubs[p])
                break
    return NONE


lib.Model.table['qkeras.utils._add_supported_quantized_objects'] = (m_add_supported, None)


@prim('_sa_pool')
def p_pool(it, st, a, kw):
    kind, x, ksize, strides, padding, df = a
    return lib.pool(kind.v, None)(it, st, x, ksize, strides, padding, df)
