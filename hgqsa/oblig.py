"""Obligations: rules stated in specs/*.py (analysed-subset python) over terms extracted from /repo."""
from __future__ import annotations

import os
import sys
import time
import traceback

from . import lib
from .interp import AbsRaise, Interp, State
from .prims import prim
from .program import (AnchorGone, Cls, Func, DictCell, Ext, FrameCell, ListCell, ObjCell, Source, Undecided, VarCell)
from .terms import (set_deadline, C, DictV, FALSE, Ite, N, NONE, ONE, Ref, TRUE, Tup, UNDEF, V, ZERO, Atom, add, apply, cand, cnot, cond_atom,
                    constrain, cor, ind, inv, is_cond, ite, mul, neg, num, of_atom, rebuild, sub, sym, walk, npow)
from .witness import separate, unmodelled_in

SPECS = os.path.join(os.path.dirname(__file__), 'specs')


class Result:
    def __init__(self, prop, ob, label, status, detail='', functions=(), data=None):
        self.prop, self.ob, self.label, self.status, self.detail = prop, ob, label, status, detail
        self.functions, self.data = functions, data or {}

    @property
    def key(self):
        return f'{self.prop}:{self.ob}:{self.label}'


class Run:
    """all obligations of one property"""

    def __init__(self, prop, specfile, tier='quick'):
        self.prop, self.specfile, self.tier = prop, specfile, tier
        self.results = []
        self.functions = {}
        self.obligations = 0
        self.cur = None
        self.case = ''
        self.patience = 1
        self.end = time.monotonic() + TOTAL_S * self.patience

    def add(self, label, status, detail='', data=None):
        lab = f'{self.case}/{label}' if self.case else label
        fs = [f'{os.path.relpath(f, "/")}:{l} {q}' for q, (f, l) in self.it.analysed.items()]
        self.results.append(Result(self.prop, self.cur, lab, status, detail, fs, data))

    def run(self, only=None):
        with open(os.path.join(SPECS, self.specfile), encoding='utf-8') as f:
            Interp.noenv = f.read().startswith('_noenv()')
        it = self.it = Interp()
        it.run = self
        src = Source(f'spec:{self.prop}', os.path.join(SPECS, self.specfile), False)
        it.sources[src.name] = src
        st = it.st0
        fr = it.alloc(st, FrameCell({'__name__': C(src.name)}, None, src.name, None))
        it.mods[src.name] = fr
        try:
            it._exec_mod(src, st, fr)
        except AnchorGone as e:
            self.cur = 'import'
            self.add('import', 'undecided', f'anchor gone: {e}')
            return self
        base = set(it.unmodelled)
        obs = [(k, v) for k, v in st.heap[fr.id].vars.items() if k.startswith('ob_')]
        if not obs:
            raise RuntimeError(f'no obligations in {self.specfile}')
        for name, fn in obs:
            if only and only not in name:
                continue
            self.obligations += 1
            self.cur = name[3:]
            self.case = ''
            it.opaque = {}
            it.sg_mode = 'erase'
            it.analysed = {}
            t0 = time.time()
            s = st.copy()
            guarded(it, s, lambda: it.call(fn, [], {}, s), OBLIGATION_S)
            self.functions.update(it.analysed)
            if os.environ.get('HGQSA_TIME'):
                print(f'   {name}: {time.time() - t0:.2f}s', file=sys.stderr)
        return self


CASE_S, OBLIGATION_S, TOTAL_S = 90, 300, 650


def guarded(it, st, fn, limit=CASE_S):
    run = it.run
    old = set_deadline(None)
    now = time.monotonic()
    set_deadline(min(now + limit * run.patience, run.end, *([old] if old is not None else [])))
    try:
        _guarded(it, st, fn, run)
    finally:
        set_deadline(old)


def _guarded(it, st, fn, run):
    n0 = len(run.results)
    it.raise_logs.append([])
    depth, stack = it.depth, list(it.callstack)
    nlogs = len(it.raise_logs)
    try:
        fn()
        dead = False
    except AbsRaise:
        dead = True
    except AnchorGone as e:
        run.add('anchor', 'undecided', f'anchor gone: {e}')
        dead = None
    except Undecided as e:
        run.add('analysis', 'undecided', str(e))
        dead = None
    except RecursionError:
        run.add('analysis', 'undecided', 'recursion')
        dead = None
    except Exception as e:      # analyser fault: never an alarm
        tb = traceback.extract_tb(e.__traceback__)
        if os.environ.get('HGQSA_DEBUG'):
            traceback.print_exc(limit=-4)
        run.add('analysis', 'undecided', f'analyser fault {type(e).__name__}: {e} at {tb[-1].filename}:{tb[-1].lineno} stack={it.callstack[-3:]}')
        dead = None
    finally:
        it.depth = depth
        it.callstack = stack
        del it.raise_logs[nlogs:]
        log = it.raise_logs.pop()
    if dead is None:
        return
    bad = [(pc, kind) for pc, kind, _ in log if pc != FALSE]
    if dead or bad:
        un = unmodelled_in(*[pc for pc, _ in bad])
        kinds = sorted({k for _, k in bad})
        w = None
        if not dead and not un:
            # some valuation has to take a raising path
            c = FALSE
            for pc, _ in bad:
                c = cor(c, pc)
            w, n = separate(c, FALSE, TRUE)
            un = w is None
        run.add('raises', 'undecided' if un else 'fail',
                f'{"always" if dead else "conditionally"} raises {kinds} when {[pc.key[:200] for pc, _ in bad][:3]}', w or {})


# ------------------------------------------------------------------ symbols
def pystr(v):
    return v.v if isinstance(v, C) else str(v.key)


def numarg(v):
    return None if v is None or v == NONE else v.const


@prim('_sym')
def p_sym(it, st, a, kw):
    """_sym(name, lo=, hi=, los=, his=, integral=, bit=, shape=)"""
    t = lambda k: kw.get(k, FALSE) == TRUE
    v = sym(pystr(a[0]), t('integral'), t('bit'), numarg(kw.get('lo')), numarg(kw.get('hi')), t('los'), t('his'))
    if 'shape' in kw:
        lib.it_shapes(it)[v.key] = Tup(it.iterate(kw['shape'], st))
    return v


@prim('_bool')
def p_bool(it, st, a, kw):
    return cond_atom(Atom('B', (pystr(a[0]),)))


@prim('_obj')
def p_obj(it, st, a, kw):
    """opaque named object; keyword arguments become attributes"""
    return it.alloc(st, ObjCell(None, dict(kw), pystr(a[0]), None, True))


@prim('_force')
def p_force(it, st, a, kw):
    """_force(obj, attr=value): attribute/property reads yield value"""
    c = st.heap[a[0].id]
    f = dict(c.force)
    f.update(kw)
    st.heap[a[0].id] = ObjCell(c.cls, c.attrs, c.name, f, c.open)
    return NONE


@prim('_opaque')
def p_opaque(it, st, a, kw):
    """_opaque('qualified.name', integral=, tuple=n): treat calls as an uninterpreted function"""
    d = {'event': kw.get('event', TRUE) == TRUE}
    if 'tuple' in kw:
        d['tuple'] = int(kw['tuple'].const)
    if kw.get('integral') == TRUE:
        d['integral'] = True
    if 'name' in kw:
        d['name'] = pystr(kw['name'])
    if 'returns' in kw:
        r = kw['returns']
        d = {'fn': lambda it, st, b: r}
    if 'via' in kw:
        via = kw['via']

        def d_fn(it, st, b):
            if isinstance(via, Func):
                # by name where the names agree, by position otherwise
                names = [p.arg for p in via.node.args.posonlyargs + via.node.args.args + via.node.args.kwonlyargs]
                if via.node.args.kwarg is None and not set(b) <= set(names):
                    return it.call(via, list(b.values()), {}, st)
            return it.call(via, [], b, st)
        d = {'fn': d_fn}
    it.opaque[pystr(a[0])] = d
    return NONE


@prim('_transparent')
def p_transparent(it, st, a, kw):
    it.opaque = {}
    return NONE


@prim('_fn')
def p_fn(it, st, a, kw):
    """opaque pure callable"""
    return of_atom(Atom('sym', (pystr(a[0]) + '!',)))


@prim('_assume')
def p_assume(it, st, a, kw):
    c = it.truth(a[0], st)
    st.pc = cand(st.pc, c)
    if st.pc == FALSE:
        raise Undecided('contradictory assumption')
    return NONE


@prim('_assume_installed')
def p_installed(it, st, a, kw):
    """the optional third-party package can be imported"""
    st.pc = cand(st.pc, cnot(cond_atom(Atom('missing', (pystr(a[0]),)))))
    return NONE


@prim('_assume_missing')
def p_missing(it, st, a, kw):
    """the optional third-party package cannot be imported"""
    st.pc = cand(st.pc, cond_atom(Atom('missing', (pystr(a[0]),))))
    return NONE


@prim('_importable')
def p_importable(it, st, a, kw):
    """importing the package does not need the optional packages"""
    for u in it.unguarded:
        it.run.add(pystr(a[0]), 'fail', u)
    if not it.unguarded:
        it.run.add(pystr(a[0]), 'ok', '')
    return NONE


# ------------------------------------------------------------------ checks
def norm(it, st, v):
    v = it.freeze(it.deref(v, st), st)
    if isinstance(v, lib.Arr) and len(v.items) == 1:
        v = v.items[0]
    return strip_bcast(canon_kd(simp_all(v, st.pc)))


def strip_bcast(v):
    """an explicit broadcast is the identity in an element-wise context (shapes are compared separately)"""
    if not any(isinstance(x, Atom) and x.op == 'bcast' for x in walk(v)):
        return v

    def f(a):
        if a.op == 'bcast':
            return strip_bcast(a.args[0]) if isinstance(a.args[0], N) else None
        if a.op in lib.ELEMENTWISE:
            return None
        return of_atom(a)
    return rebuild(v, f)


def _lead_kd(a):
    if a.op not in lib.REDUCE or a.args[2] is not True:
        return False
    ax = a.args[1]
    return ax == 'all' or isinstance(ax, tuple) and ax == tuple(range(len(ax)))


def canon_kd(v):
    """kept leading dimensions of size one do not matter for a value (they broadcast)"""
    if not any(isinstance(x, Atom) and _lead_kd(x) for x in walk(v)):
        return v

    def f(a):
        if not _lead_kd(a):
            return None
        x = canon_kd(a.args[0])
        if a.op in ('rall', 'rany'):
            return of_atom(Atom(a.op, (x, a.args[1], False)))
        return lib.mk_reduce(a.op, x, a.args[1], False)
    return rebuild(v, f)


def simp_all(v, pc):
    return constrain(v, pc) if pc != TRUE else v


def compare(it, st, label, got, want):
    run = it.run
    if got == want or got.key == want.key:
        run.add(label, 'ok')
        return
    got2, want2 = distribute(got), distribute(want)
    if got2.key == want2.key:
        run.add(label, 'ok')
        return
    if _flat(got2).key == _flat(want2).key:
        run.add(label, 'ok')
        return
    un = unmodelled_in(got, want)
    if un:
        run.add(label, 'undecided', f'depends on unmodelled {sorted(un)[:3]}')
        return
    sa, sb = [{x.key for x in walk(v) if isinstance(x, Atom) and x.op == 'shape'} for v in (got, want)]
    if sa != sb:
        run.add(label, 'undecided', f'depends on a shape that could not be derived: {sorted(sa ^ sb)[0][:200]}')
        return
    w, n = separate(got, want, st.pc)
    if w is None:
        run.add(label, 'undecided', f'not proved equal, but no valuation out of {n} separates them: got {got.key[:400]} want {want.key[:400]}')
        return
    run.add(label, 'fail', f'got {got.key[:600]}\n        want {want.key[:600]}', w)


def _flat(v):
    """numeric gates as indicator polynomials"""
    if isinstance(v, Ite) and not is_cond(v):
        h, l = _flat(v.h), _flat(v.l)
        if isinstance(h, N) and isinstance(l, N):
            c = ind(cond_atom(v.a))
            return add(mul(c, h), mul(sub(ONE, c), l))
    if isinstance(v, Tup):
        return Tup([_flat(x) for x in v.items])
    return v


def distribute(v):
    """push gates to the leaves of structures so that Ite(c, (a,b), (c,d)) and (Ite(c,a,c), Ite(c,b,d)) agree"""
    if isinstance(v, Ite) and not is_cond(v):
        ls = []
        stack = [v]
        seen = set()
        while stack:
            x = stack.pop()
            if x.key in seen:
                continue
            seen.add(x.key)
            if isinstance(x, Ite):
                stack += [x.h, x.l]
            else:
                ls.append(x)
        if all(isinstance(x, Tup) for x in ls) and len({len(x.items) for x in ls}) == 1:
            n = len(ls[0].items)
            return Tup([distribute(apply(lambda x, i=i: x.items[i], v)) for i in range(n)])
        if all(isinstance(x, DictV) for x in ls):
            ks = []
            for x in ls:
                for k, _ in x.kv:
                    if k not in ks:
                        ks.append(k)
            return DictV([(k, distribute(apply(lambda x, k=k: x.get(k) or UNDEF, v))) for k in ks])
        return v
    if isinstance(v, Tup):
        return Tup([distribute(x) for x in v.items])
    if isinstance(v, DictV):
        return DictV([(k, distribute(x)) for k, x in v.kv if x != UNDEF])
    if type(v).__name__ == 'Arr':
        return Tup([distribute(x) for x in v.items])
    return v


@prim('_same')
def p_same(it, st, a, kw):
    """_same(label, got, want)"""
    compare(it, st, pystr(a[0]), norm(it, st, a[1]), norm(it, st, a[2]))
    return NONE


@prim('_is')
def p_is(it, st, a, kw):
    """identity of heap objects"""
    g, w = it.simp(a[1], st.pc), it.simp(a[2], st.pc)
    if g == w:
        it.run.add(pystr(a[0]), 'ok')
    elif unmodelled_in(g, w):
        it.run.add(pystr(a[0]), 'undecided', 'unmodelled')
    else:
        it.run.add(pystr(a[0]), 'fail', f'not the same object: {show(it, st, g)} vs {show(it, st, w)}')
    return NONE


@prim('_isnot')
def p_isnot(it, st, a, kw):
    g, w = it.simp(a[1], st.pc), it.simp(a[2], st.pc)
    if g != w:
        it.run.add(pystr(a[0]), 'ok')
    else:
        it.run.add(pystr(a[0]), 'fail', f'same object: {show(it, st, g)}')
    return NONE


def show(it, st, v):
    try:
        return it.freeze(v, st).key[:200]
    except Exception:
        return v.key[:200]


@prim('_require')
def p_require(it, st, a, kw):
    """_require(label, condition): must hold on every path"""
    c = it.decide(st, it.truth(a[1], st))
    compare(it, st, pystr(a[0]), c, TRUE)
    return NONE


@prim('_fail')
def p_fail(it, st, a, kw):
    it.run.add(pystr(a[0]), 'fail', pystr(a[1]) if len(a) > 1 else '')
    return NONE


@prim('_noenv')
def p_noenv(it, st, a, kw):
    """no environment variable is set"""
    return NONE


@prim('_case')
def p_case(it, st, a, kw):
    """run fn in a copy of the state; faults are contained"""
    run = it.run
    old = run.case
    run.case = f'{old}/{pystr(a[0])}' if old else pystr(a[0])
    s = st.copy()
    op, sg, an = dict(it.opaque), it.sg_mode, it.analysed
    it.analysed = {}
    guarded(it, s, lambda: it.call(a[1], list(a[2:]), dict(kw), s))
    an.update(it.analysed)
    it.opaque, it.sg_mode, it.analysed = op, sg, an
    run.case = old
    return NONE


def raise_cond(it, st, fn):
    """condition under which fn() raises; state continues on the non-raising paths"""
    it.raise_logs.append([])
    nlogs = len(it.raise_logs)
    entry = st.pc
    dead = False
    v = NONE
    try:
        v = it.call(fn, [], {}, st)
    except AbsRaise:
        dead = True
    finally:
        del it.raise_logs[nlogs:]
        log = it.raise_logs.pop()
    c = FALSE
    for pc, kind, _ in log:
        c = cor(c, pc)
    if dead:
        c = entry
        st.pc = FALSE
    return c, v, {k for pc, k, _ in log if pc != FALSE}


@prim('_raises')
def p_raises(it, st, a, kw):
    """_raises(label, fn, cond): fn raises exactly when cond"""
    s = st.copy()
    c, v, kinds = raise_cond(it, s, a[1])
    want = it.truth(a[2], st) if len(a) > 2 else TRUE
    compare(it, st, pystr(a[0]), constrain(c, st.pc) if st.pc != TRUE else c, constrain(want, st.pc) if st.pc != TRUE else want)
    return NONE


@prim('_try')
def p_try(it, st, a, kw):
    """value of fn() on non raising paths (state continues there)"""
    c, v, k = raise_cond(it, st, a[0])
    if st.pc == FALSE:
        raise Undecided('always raises')
    return v


@prim('_events')
def p_events(it, st, a, kw):
    """tuple of the payloads of logged events with this tag (optionally since index)"""
    tag = pystr(a[0])
    out = []
    for pc, t, vals, snap in st.events:
        if t == tag and cand(pc, st.pc) != FALSE:
            out.append(Tup([ind(constrain(pc, st.pc) if st.pc != TRUE else pc)] + list(vals.items)))
    return Tup(out)


@prim('_clear_events')
def p_clear(it, st, a, kw):
    st.events = []
    return NONE


@prim('_copyval')
def p_copyval(it, st, a, kw):
    """heap independent snapshot of a value"""
    return it.freeze(it.deref(a[0], st), st)


@prim('_deref')
def p_deref(it, st, a, kw):
    return it.deref(a[0], st)


@prim('_setvar')
def p_setvar(it, st, a, kw):
    """give a tf.Variable a symbolic content"""
    c = st.heap[a[0].id]
    v = it.deref(a[1], st)
    if 'shape' in c.meta and isinstance(c.meta['shape'], Tup) and isinstance(v, N):
        v = lib.with_shape(it, v, c.meta['shape'])
    elif isinstance(v, N) and kw.get('keep') != FALSE:
        s = lib.shape_of(it, st, c.val)
        if s is not None:
            v = lib.with_shape(it, v, s)
    st.heap[a[0].id] = VarCell(v, c.name, c.meta)
    return NONE


@prim('_meta')
def p_meta(it, st, a, kw):
    c = st.heap[a[0].id]
    return c.meta.get(pystr(a[1]), NONE)


@prim('_gradmode')
def p_gradmode(it, st, a, kw):
    it.sg_mode = 'keep' if a[0] == TRUE else 'erase'
    return NONE


@prim('_value')
def p_value(it, st, a, kw):
    """value with stop_gradient erased"""
    v = it.deref(a[0], st)
    return strip_sg(v)


def strip_sg(v):
    def f(a):
        if a.op == 'sg':
            return strip_sg(a.args[0])
        return None
    return apply(lambda x: rebuild(x, f), v) if isinstance(v, Ite) else rebuild(v, f)


def _contains(v, key):
    return any(isinstance(x, Atom) and x.key == key for x in walk(v))


LN2 = of_atom(Atom('ln2'))


def diff(v, key):
    if isinstance(v, Ite):
        return apply(lambda x: diff(x, key), v)
    if isinstance(v, C):
        return ZERO
    r = ZERO
    for m, c in v.p.items():
        for i, (a, e) in enumerate(m):
            d = diff_atom(a, key)
            if d == ZERO:
                continue
            t = mul(num(c * e), d)
            for j, (b, eb) in enumerate(m):
                k = eb if j != i else e - 1
                if k:
                    t = mul(t, npow(of_atom(b), k))
            r = add(r, t)
    return r


def diff_atom(a, key):
    if a.key == key:
        return ONE
    if a.op in ('sg', 'floor', 'round', 'trunc', 'ind', 'sign', 'gt0', 'eq0') or not _contains(of_atom(a), key):
        return ZERO
    u = a.args[0]
    if a.op == 'pow2':
        return mul(mul(of_atom(a), LN2), diff(u, key))
    if a.op == 'log2':
        return mul(inv(mul(u, LN2)), diff(u, key))
    if a.op == 'log':
        return mul(inv(u), diff(u, key))
    if a.op == 'relu':
        from .terms import gt0
        return mul(ind(gt0(u)), diff(u, key))
    if a.op == 'inv':
        return neg(mul(npow(of_atom(a), 2), diff(u, key)))
    if a.op == 'sqrt':
        return mul(mul(num(0.5), inv(of_atom(a))), diff(u, key))
    if a.op in lib.REDUCE:
        # which elements of the group receive the gradient is a function of the reduction and of what it reduces
        return of_atom(Atom('dred', (a.op, u, a.args[1], diff(u, key))))
    raise Undecided(f'derivative of {a.op}')


@prim('_grad')
def p_grad(it, st, a, kw):
    y, x = it.deref(a[0], st), it.deref(a[1], st)
    return strip_sg(diff(y, x.atom.key))


@prim('_trailing_zeros')
def p_tz(it, st, a, kw):
    return apply(lambda x: lib.trailing_zeros(lib.to_n(x)), it.deref(a[0], st))


@prim('_mentions')
def p_mentions(it, st, a, kw):
    """does the value depend (syntactically, in canonical form) on the symbol"""
    v = it.freeze(it.deref(a[0], st), st)
    k = it.deref(a[1], st)
    k = k.atom.key if isinstance(k, N) else pystr(k)
    return C(_contains(v, k))


@prim('_allrefs')
def p_allrefs(it, st, a, kw):
    return NONE


@prim('_reachable_ids')
def p_reach(it, st, a, kw):
    """set of heap cells reachable from a value (as sorted tuple of ids)"""
    seen = set()
    stack = [a[0]]
    while stack:
        v = stack.pop()
        if isinstance(v, Ref):
            if v.id in seen:
                continue
            seen.add(v.id)
            c = st.heap[v.id]
            if isinstance(c, ObjCell):
                stack += list(c.attrs.values())
            elif isinstance(c, ListCell):
                stack += list(c.items)
            elif isinstance(c, DictCell):
                stack += [x for _, x in c.kv]
        elif isinstance(v, (Tup,)):
            stack += list(v.items)
        elif isinstance(v, Ite):
            stack += [v.h, v.l]
    return Tup([num(i) for i in sorted(seen)])


@prim('_show')
def p_show(it, st, a, kw):
    print('SHOW', [it.freeze(x, st).key[:3000] for x in a], 'pc', st.pc.key[:300])
    return NONE


@prim('_attrs')
def p_attrs(it, st, a, kw):
    """dict of the instance attributes"""
    c = st.heap[a[0].id]
    return it.new_dict(st, [(C(k), v) for k, v in c.attrs.items() if v != UNDEF])


@prim('_cls')
def p_cls(it, st, a, kw):
    v = it.simp(a[0], st.pc)
    return Cls(st.heap[v.id].cls)


@prim('_clsname')
def p_clsname(it, st, a, kw):
    v = it.simp(a[0], st.pc)
    if isinstance(v, Ref) and isinstance(st.heap[v.id], ObjCell) and st.heap[v.id].cls:
        return C(st.heap[v.id].cls.name)
    return C(type(v).__name__)


@prim('_undefined')
def p_undef(it, st, a, kw):
    return C(a[0] == UNDEF)


@prim('_shape_of')
def p_shapeof(it, st, a, kw):
    v = it.deref(a[0], st)
    s = lib.shape_of(it, st, v)
    if s is None:
        raise Undecided('unknown shape')
    return s


@prim('_thorough')
def p_thorough(it, st, a, kw):
    return C(it.run.tier == 'thorough')


@prim('_registered')
def p_registered(it, st, a, kw):
    """name under which keras finds the class when a saved model is loaded (None: not registered)"""
    c = a[0]
    if not isinstance(c, Cls):
        return NONE
    r = it.registered.get(c.info.qual)
    if r is None:
        return NONE
    return C(f'{r[0]}>{r[1] or c.info.name}')
