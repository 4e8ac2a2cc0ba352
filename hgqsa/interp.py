"""Interprocedural forward data-flow over the repository's syntax trees.

Every variable / attribute / tf.Variable holds a canonical term (terms.py);
control-flow joins become gates (decision diagrams), calls to repository code
are analysed in context, calls to libraries go through models (lib.py).
"""
from __future__ import annotations

import ast

from . import lib, prims  # noqa: F401
from .program import (Altern, AnchorGone, Bound, BoundSym, ClassM, Cls, ClsInfo, DictCell, DispCell, Ext, FrameCell,
                      Func, ListCell, Mod, ObjCell, Partial, Prop, PyFn, StaticM, SuperV, Undecided, VarCell, canon,
                      load_sources, STUBS, Source)
from .terms import (tick, C, DictV, FALSE, Fraction, Ite, N, NONE, Ref, TRUE, Tup, UNDEF, V, Atom, add, apply, cand, cnot, cond_atom,
                    constrain, cor, div, eq0, gt0, ind, integral, is_cond, ite, literals, mul, neg, nfloor, nfloordiv,
                    nfloormod, npow, num, of_atom, pow2, restrict, sub, ntrunc)

import os


class AbsRaise(Exception):
    """every path of the current state raises (already logged)"""


class State:
    __slots__ = ('heap', 'pc', 'events')

    def __init__(self, heap, pc, events):
        self.heap, self.pc, self.events = heap, pc, events

    def copy(self):
        return State(dict(self.heap), self.pc, list(self.events))

    def become(self, o):
        self.heap, self.pc, self.events = o.heap, o.pc, o.events


OPTIONAL_EXT = ('hls4ml', 'qkeras')


class Interp:
    MAXDEPTH = 70

    def __init__(self):
        self.counter = 0
        self.sources = load_sources()
        self.mods = {}
        self.stubs = {}
        self.analysed = {}
        self.unmodelled = set()
        self.assumed = set()
        self.opaque = {}
        self.watch = None
        self.depth = 0
        self.raise_logs = [[]]
        self.loading = []
        self.registered = {}
        self.optional = OPTIONAL_EXT
        self.handlers_active = 0
        self.callstack = []
        st = State({}, TRUE, [])
        self.st0 = st
        self._load_stub(st)
        self.unguarded = []   # ways in which `import HGQ` fails without an optional package
        self.importing = True
        if 'HGQ' in self.sources:
            self.load_module('HGQ', st)
        self.importing = False
        self.unguarded += [f'{kind} while importing' for pc, kind, s in self.raise_logs[0]]
        for m in list(self.sources):
            self.load_module(m, st)
        self.analysed = {}

    # ------------------------------------------------------------ allocation
    def alloc(self, st, cell):
        self.counter += 1
        st.heap[self.counter] = cell
        return Ref(self.counter)

    def new_list(self, st, items, kind='list'):
        return self.alloc(st, ListCell(items, kind))

    def new_dict(self, st, kv, sym=None):
        return self.alloc(st, DictCell(kv, sym))

    # ------------------------------------------------------------ modules
    def _load_stub(self, st):
        for f in sorted(os.listdir(STUBS)):
            if not f.endswith('.py'):
                continue
            name = 'stub:' + f[:-3]
            src = Source(name, os.path.join(STUBS, f), False)
            fr = self.alloc(st, FrameCell({}, None, name, None))
            self.mods[name] = fr
            self.sources_stub = src
            self._exec_mod(src, st, fr, stub=True)
            for k, v in list(st.heap[fr.id].vars.items()):
                if isinstance(v, Cls) and '__paths__' in v.info.attrs:
                    for p in v.info.attrs['__paths__'].items:
                        self.stubs[p.v] = v
                if isinstance(v, Func) and k == 'Input':
                    self.stubs['keras.layers.Input'] = v

    def load_module(self, name, st):
        if name in self.mods:
            return self.mods[name]
        if name not in self.sources:
            raise AnchorGone(f'module {name} not found')
        if '.' in name:
            self.load_module(name.rsplit('.', 1)[0], st) if name.rsplit('.', 1)[0] in self.sources else None
            if name in self.mods:
                return self.mods[name]
        src = self.sources[name]
        fr = self.alloc(st, FrameCell({'__name__': C(name)}, None, name, None))
        self.mods[name] = fr
        self._exec_mod(src, st, fr)
        return fr

    def _exec_mod(self, src, st, fr, stub=False):
        self.loading.append((src, stub))
        try:
            for s in src.tree.body:
                try:
                    r = self.exec_block([s], st, fr)
                except Undecided as e:
                    # poison the names bound by the statement
                    for n in ast.walk(s):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            self.setvar(st, fr, n.id, of_atom(Atom('undecided', (f'{src.name}:{n.id}',))))
                    self.unmodelled.add(f'module level {src.name}:{s.lineno}: {e}')
                    continue
                r = [x for x in r if x[0] == 'fall']
                if not r:
                    self.unmodelled.add(f'module level {src.name}:{s.lineno}: always raises')
                    continue
                st.become(r[0][2])
        finally:
            self.loading.pop()

    def file_of(self, mod):
        s = self.sources.get(mod)
        return s.path if s is not None else mod

    # ------------------------------------------------------------ lookup
    def getvar(self, st, fr, name):
        f = st.heap[fr.id]
        mod = f.mod
        if name in f.globals:
            pass
        else:
            cur = f
            while cur is not None:
                v = cur.vars.get(name)
                if v is not None and v != UNDEF:
                    return v
                cur = st.heap[cur.parent.id] if cur.parent is not None else None
        g = st.heap[self.mods[mod].id]
        v = g.vars.get(name)
        if v is not None and v != UNDEF:
            return v
        b = lib.BUILTINS.get(name)
        if b is not None:
            return b
        raise Undecided(f'name {name} is not defined in {mod}')

    def setvar(self, st, fr, name, v):
        f = st.heap[fr.id]
        if name in f.globals:
            g = self.mods[f.mod]
            st.heap[g.id] = st.heap[g.id].set(name, v)
            return
        if name in f.nonlocals:
            cur = f.parent
            while cur is not None:
                c = st.heap[cur.id]
                if name in c.vars:
                    st.heap[cur.id] = c.set(name, v)
                    return
                cur = c.parent
        st.heap[fr.id] = f.set(name, v)

    # ------------------------------------------------------------ conditions
    def simp(self, v, pc):
        if pc == TRUE or not isinstance(v, Ite):
            return v
        return constrain(v, pc)

    def decide(self, st, c):
        """simplify condition c under the path condition"""
        if c == TRUE or c == FALSE:
            return c
        if st.pc == TRUE:
            return c
        if cand(st.pc, c) == FALSE:
            return FALSE
        if cand(st.pc, cnot(c)) == FALSE:
            return TRUE
        return constrain(c, st.pc)

    def truth(self, v, st):
        if isinstance(v, Ite):
            return apply(lambda x: self.truth(x, st), v)
        if isinstance(v, C):
            if v == UNDEF:
                raise Undecided('truth of undefined value')
            return C(bool(v.v))
        if isinstance(v, N):
            if v.const is not None:
                return C(v.const != 0)
            a = v.atom
            c = cnot(eq0(v))
            if a is not None:
                if a.op in ('obj', 'new', 'cmatch'):
                    return TRUE
                if lib.nullable(a):
                    c = cand(cnot(cond_atom(Atom('isnone', (v,)))), c)
            return c
        if isinstance(v, Tup):
            return C(len(v.items) > 0)
        if isinstance(v, DictV):
            return C(len(v.kv) > 0)
        if isinstance(v, Ref):
            c = st.heap[v.id]
            if isinstance(c, ListCell):
                return C(len(c.items) > 0)
            if isinstance(c, DictCell):
                if c.sym is not None:
                    return TRUE if c.kv else cond_atom(Atom('truthy', (c.sym,)))
                for k, x in c.kv:
                    if not _maybe_undef(x):
                        return TRUE
                if not c.kv:
                    return FALSE
                raise Undecided('truth of a gated dict')
            if isinstance(c, VarCell):
                return self.truth(c.val, st)
            if isinstance(c, ObjCell):
                for m in ('__bool__', '__len__'):
                    o, f = c.cls.find(m) if c.cls else (None, None)
                    if f is not None:
                        return self.truth(self.call(Bound(f, v), [], {}, st), st)
                return TRUE
            if isinstance(c, Altern):
                return ite(c.cond, self._cell_truth(c.a), self._cell_truth(c.b))
        return TRUE

    def _cell_truth(self, c):
        if isinstance(c, ListCell):
            return C(len(c.items) > 0)
        if isinstance(c, Altern):
            return ite(c.cond, self._cell_truth(c.a), self._cell_truth(c.b))
        raise Undecided('truth of joined cell')

    def branch(self, c, st, ft, ff):
        """evaluate ft / ff under condition c and join"""
        c = self.decide(st, c)
        if c == TRUE:
            return ft(st)
        if c == FALSE:
            return ff(st)
        s1, s2 = st.copy(), st.copy()
        s1.pc, s2.pc = cand(st.pc, c), cand(st.pc, cnot(c))
        v1 = v2 = None
        try:
            v1 = ft(s1)
        except AbsRaise:
            s1 = None
        try:
            v2 = ff(s2)
        except AbsRaise:
            s2 = None
        if s1 is None and s2 is None:
            raise AbsRaise()
        if s1 is None:
            st.become(s2)
            return v2
        if s2 is None:
            st.become(s1)
            return v1
        m = self.merge2(c, s1, s2)
        st.become(m)
        return ite(c, v1, v2)

    def fork(self, v, st, fn):
        """call fn(leaf, state) for every leaf of a gated value"""
        v = self.simp(v, st.pc)
        if not isinstance(v, Ite):
            return fn(v, st)
        return self.branch(cond_atom(v.a), st, lambda s: self.fork(v.h, s, fn), lambda s: self.fork(v.l, s, fn))

    # ------------------------------------------------------------ joins
    def merge_cell(self, c, a, b):
        if a is b:
            return a
        if type(a) is type(b):
            if isinstance(a, FrameCell):
                return FrameCell(self.merge_map(c, a.vars, b.vars), a.parent, a.mod, a.cls, a.globals, a.nonlocals)
            if isinstance(a, ObjCell) and a.cls is b.cls:
                return ObjCell(a.cls, self.merge_map(c, a.attrs, b.attrs), a.name, self.merge_map(c, a.force, b.force), a.open or b.open)
            if isinstance(a, ListCell) and len(a.items) == len(b.items):
                return ListCell([ite(c, x, y) for x, y in zip(a.items, b.items)], a.kind)
            if isinstance(a, DictCell):
                ks = [k for k, _ in a.kv]
                da, db = dict(a.kv), dict(b.kv)
                ks += [k for k, _ in b.kv if k not in da]
                return DictCell([(k, ite(c, da.get(k, UNDEF), db.get(k, UNDEF))) for k in ks], a.sym)
            if isinstance(a, VarCell):
                return VarCell(ite(c, a.val, b.val), a.name, a.meta)
            if isinstance(a, DispCell):
                return a
        return Altern(c, a, b)

    @staticmethod
    def merge_map(c, a, b):
        if a is b:
            return a
        out = {}
        for k in a:
            out[k] = ite(c, a[k], b.get(k, UNDEF))
        for k in b:
            if k not in a:
                out[k] = ite(c, UNDEF, b[k])
        return out

    def merge2(self, c, s1, s2):
        heap = dict(s1.heap)
        for i, cell in s2.heap.items():
            o = s1.heap.get(i)
            if o is None:
                heap[i] = cell
            elif o is not cell:
                heap[i] = self.merge_cell(c, o, cell)
        n = 0
        while n < len(s1.events) and n < len(s2.events) and s1.events[n] is s2.events[n]:
            n += 1
        ev = s1.events + s2.events[n:]
        return State(heap, cor(s1.pc, s2.pc), ev)

    def merge_many(self, pairs, entry_pc):
        """pairs: [(value, state)] with disjoint path conditions"""
        v, s = pairs[-1]
        for vi, si in reversed(pairs[:-1]):
            tot = cor(si.pc, s.pc)
            c = constrain(si.pc, tot)
            s = self.merge2(c, si, s)
            if v is not None or vi is not None:
                v = constrain(ite(c, vi, v), s.pc)
        return v, s

    # ------------------------------------------------------------ raising
    def log_raise(self, st, kind, msg=''):
        self.raise_logs[-1].append((st.pc, kind, st.copy()))

    def raise_(self, st, kind, msg=''):
        self.log_raise(st, kind, msg)
        raise AbsRaise()

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st, fr):
        exits = []
        cur = st
        for s in stmts:
            try:
                res = self.exec_stmt(s, cur, fr)
            except AbsRaise:
                cur = None
                break
            except lib.ShapeMismatch as e:
                self.log_raise(cur, 'ValueError', str(e))
                cur = None
                break
            except Undecided as e:
                if not getattr(e, 'loc', None):
                    f = st.heap.get(fr.id)
                    e.loc = f'{self.file_of(f.mod) if f else "?"}:{s.lineno}'
                    e.args = (f'{e.args[0]} [{e.loc}]',)
                raise
            falls = []
            for x in res:
                if x[0] == 'fall':
                    falls.append((None, x[2]))
                else:
                    exits.append(x)
            if not falls:
                cur = None
                break
            cur = falls[0][1] if len(falls) == 1 else self.merge_many(falls, None)[1]
        if cur is not None:
            exits.append(('fall', None, cur))
        return exits

    def exec_stmt(self, s, st, fr):
        tick()
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Undecided(f'statement {type(s).__name__}')
        r = m(s, st, fr)
        return r if r is not None else [('fall', None, st)]

    def st_Pass(self, s, st, fr):
        pass

    def st_Global(self, s, st, fr):
        f = st.heap[fr.id]
        st.heap[fr.id] = FrameCell(f.vars, f.parent, f.mod, f.cls, tuple(f.globals) + tuple(s.names), f.nonlocals)

    def st_Nonlocal(self, s, st, fr):
        f = st.heap[fr.id]
        st.heap[fr.id] = FrameCell(f.vars, f.parent, f.mod, f.cls, f.globals, tuple(f.nonlocals) + tuple(s.names))

    def st_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return
        v = self.eval(s.value, st, fr)
        # unmodelled external call for its effect
        return

    def st_Return(self, s, st, fr):
        v = self.eval(s.value, st, fr) if s.value is not None else NONE
        return [('return', v, st)]

    def st_Break(self, s, st, fr):
        return [('break', None, st)]

    def st_Continue(self, s, st, fr):
        return [('continue', None, st)]

    def st_Assign(self, s, st, fr):
        v = self.eval(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)

    def st_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st, fr), st, fr)

    def st_AugAssign(self, s, st, fr):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.getvar(st, fr, t.id)
            self.assign(t, self.aug(s.op, old, self.eval(s.value, st, fr), st), st, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, fr)
            old = self.getattr(o, self.mangle(t.attr, st, fr), st)
            v = self.aug(s.op, old, self.eval(s.value, st, fr), st)
            self.setattr(o, self.mangle(t.attr, st, fr), v, st)
        elif isinstance(t, ast.Subscript):
            old = self.eval(ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load()), st, fr)
            v = self.aug(s.op, old, self.eval(s.value, st, fr), st)
            self.assign(t, v, st, fr)
        else:
            raise Undecided('augmented assignment target')

    def aug(self, op, old, v, st):
        if isinstance(old, Ref) and isinstance(op, ast.Add):
            c = st.heap[old.id]
            if isinstance(c, ListCell) and c.kind == 'list':
                st.heap[old.id] = ListCell(c.items + tuple(self.iterate(v, st)), c.kind)
                return old
        if isinstance(old, Ref) and isinstance(op, ast.BitOr) and isinstance(st.heap[old.id], DictCell):
            self.call(BoundSym(old, 'update'), [v], {}, st)
            return old
        return self.binop(op, old, v, st)

    def st_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.eval(t.value, st, fr)
                k = self.eval(t.slice, st, fr)
                if isinstance(o, Ref) and isinstance(st.heap[o.id], DictCell):
                    c = st.heap[o.id]
                    st.heap[o.id] = c.rm(k)
                    continue
                raise Undecided('del item')
            if isinstance(t, ast.Name):
                self.setvar(st, fr, t.id, UNDEF)
                continue
            if isinstance(t, ast.Attribute):
                o = self.eval(t.value, st, fr)
                self.delattr(o, t.attr, st)
                continue
            raise Undecided('del')

    def delattr(self, o, name, st):
        if isinstance(o, Ref) and isinstance(st.heap[o.id], ObjCell):
            c = st.heap[o.id]
            a = dict(c.attrs)
            a[name] = UNDEF
            st.heap[o.id] = ObjCell(c.cls, a, c.name, c.force, c.open)
            return
        raise Undecided('delattr')

    def st_If(self, s, st, fr):
        c = self.truth(self.eval(s.test, st, fr), st)
        c = self.decide(st, c)
        if c == TRUE:
            return self.exec_block(s.body, st, fr)
        if c == FALSE:
            return self.exec_block(s.orelse, st, fr)
        s1, s2 = st.copy(), st.copy()
        s1.pc, s2.pc = cand(st.pc, c), cand(st.pc, cnot(c))
        e1 = self.exec_block(s.body, s1, fr)
        e2 = self.exec_block(s.orelse, s2, fr)
        f1 = [x for x in e1 if x[0] == 'fall']
        f2 = [x for x in e2 if x[0] == 'fall']
        out = [x for x in e1 + e2 if x[0] != 'fall']
        if f1 and f2:
            out.append(('fall', None, self.merge2(c, f1[0][2], f2[0][2])))
        else:
            out += f1 + f2
        return out

    def st_Assert(self, s, st, fr):
        c = self.decide(st, self.truth(self.eval(s.test, st, fr), st))
        if c == TRUE:
            return
        if c == FALSE:
            self.raise_(st, 'AssertionError')
        bad = st.copy()
        bad.pc = cand(st.pc, cnot(c))
        self.log_raise(bad, 'AssertionError')
        st.pc = cand(st.pc, c)

    def st_Raise(self, s, st, fr):
        name = 'Exception'
        if s.exc is None:
            cur = getattr(self, '_cur_exc', None)
            name = cur or 'Exception'
        else:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            if isinstance(e, ast.Name):
                name = e.id
            elif isinstance(e, ast.Attribute):
                name = e.attr
        self.raise_(st, name)

    def st_FunctionDef(self, s, st, fr):
        self.setvar(st, fr, s.name, self.mk_func(s, st, fr))

    st_AsyncFunctionDef = None

    def st_ClassDef(self, s, st, fr):
        self.setvar(st, fr, s.name, self.mk_class(s, st, fr))

    def st_Import(self, s, st, fr):
        for a in s.names:
            top = a.name.split('.')[0]
            self._maybe_missing(a.name, st)
            if a.asname:
                v = self.import_mod(a.name, st)
                self.setvar(st, fr, a.asname, v)
            else:
                self.setvar(st, fr, top, self.import_mod(top, st))

    def _maybe_missing(self, name, st):
        if name.split('.')[0] in self.optional and self.handlers_active == 0 and self.importing:
            self.unguarded.append(f'import of {name}')
        if name.split('.')[0] in self.optional and self.handlers_active > 0:
            c = self.decide(st, cond_atom(Atom('missing', (name.split('.')[0],))))
            if c == FALSE:
                return
            bad = st.copy()
            bad.pc = cand(st.pc, c)
            self.log_raise(bad, 'ImportError')
            st.pc = cand(st.pc, cnot(c))
            if st.pc == FALSE:
                raise AbsRaise()

    def import_mod(self, name, st):
        if name in self.sources:
            self.load_module(name, st)
            return Mod(name)
        if name.split('.')[0] == 'HGQ':
            if name in ('HGQ._version',):
                return Ext('HGQ._version')
            raise Undecided(f'unknown module {name}')
        return self.ext(name)

    def ext(self, path):
        p = canon(path)
        if p in self.stubs:
            return self.stubs[p]
        c = lib.consts(p)
        if c is not None:
            return c
        return Ext(p)

    def st_ImportFrom(self, s, st, fr):
        f = st.heap[fr.id]
        base = s.module or ''
        if s.level:
            modname = f.mod
            src = self.sources[modname]
            parts = modname.split('.')
            if not src.pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            base = '.'.join(parts + ([s.module] if s.module else []))
        if base in self.sources:
            self.load_module(base, st)
            for a in s.names:
                if a.name == '*':
                    g = st.heap[self.mods[base].id]
                    allv = g.vars.get('__all__')
                    names = [x.v for x in self.iterate(allv, st)] if allv is not None else [n for n in g.vars if not n.startswith('_')]
                    for n in names:
                        self.setvar(st, fr, n, st.heap[self.mods[base].id].vars[n])
                    continue
                self.setvar(st, fr, a.asname or a.name, self.mod_attr(base, a.name, st))
            return
        if base.split('.')[0] == 'HGQ' and base != 'HGQ._version':
            self.raise_(st, 'ImportError')
        self._maybe_missing(base, st)
        if base == '__future__':
            return
        for a in s.names:
            if a.name == '*':
                raise Undecided('star import of external module')
            v = self.get_ext(st, canon(base), a.name)
            self.setvar(st, fr, a.asname or a.name, v if v is not None else self.ext(base + '.' + a.name))

    def mod_attr(self, mod, name, st):
        self.load_module(mod, st)
        g = st.heap[self.mods[mod].id]
        v = g.vars.get(name)
        if isinstance(v, Ite):   # a module whose import may have failed
            v = self.simp(v, st.pc)
            if isinstance(v, Ite) and (v.h == UNDEF or v.l == UNDEF):
                c = cond_atom(v.a)
                c = c if v.h == UNDEF else cnot(c)
                bad = st.copy()
                bad.pc = cand(st.pc, c)
                self.log_raise(bad, 'ImportError')
                st.pc = cand(st.pc, cnot(c))
                v = v.l if v.h == UNDEF else v.h
            elif v == UNDEF:
                self.raise_(st, 'ImportError')
        if v is not None and v != UNDEF:
            return v
        sub_ = f'{mod}.{name}'
        if sub_ in self.sources:
            self.load_module(sub_, st)
            return Mod(sub_)
        raise AnchorGone(f'{mod}.{name} does not exist')

    # loops
    def st_For(self, s, st, fr):
        it = self.eval(s.iter, st, fr)
        it = self.simp(it, st.pc)
        if isinstance(it, Ite):
            c = cond_atom(it.a)
            s1, s2 = st.copy(), st.copy()
            s1.pc, s2.pc = cand(st.pc, c), cand(st.pc, cnot(c))
            e1 = self._for_over(s, it.h, s1, fr)
            e2 = self._for_over(s, it.l, s2, fr)
            return e1 + e2
        return self._for_over(s, it, st, fr)

    def _for_over(self, s, it, st, fr):
        it = self.simp(it, st.pc)
        if isinstance(it, Ite):
            raise Undecided('loop over gated iterable')
        items = self.iterate(it, st)
        cur = st
        out, broken = [], []
        for x in items:
            if cur is None:
                break
            self.assign(s.target, x, cur, fr)
            nxt = []
            for kind, v, ss in self.exec_block(s.body, cur, fr):
                if kind in ('fall', 'continue'):
                    nxt.append((None, ss))
                elif kind == 'break':
                    broken.append((None, ss))
                else:
                    out.append((kind, v, ss))
            cur = self.merge_many(nxt, None)[1] if nxt else None
        return self._loop_end(s, cur, broken, out, fr)

    def _loop_end(self, s, cur, broken, out, fr):
        ends = list(broken)
        if cur is not None:
            if s.orelse:
                for kind, v, ss in self.exec_block(s.orelse, cur, fr):
                    if kind == 'fall':
                        ends.append((None, ss))
                    else:
                        out.append((kind, v, ss))
            else:
                ends.append((None, cur))
        if ends:
            out.append(('fall', None, self.merge_many(ends, None)[1]))
        return out

    MAXITER = 400

    def st_While(self, s, st, fr):
        cur = st
        out, broken, done = [], [], []
        n = 0
        while cur is not None:
            n += 1
            if n > self.MAXITER:
                raise Undecided('loop bound exceeded')
            c = self.decide(cur, self.truth(self.eval(s.test, cur, fr), cur))
            if c == FALSE:
                break
            if c != TRUE:
                if n > 70:
                    raise Undecided('loop bound exceeded')
                s2 = cur.copy()
                s2.pc = cand(cur.pc, cnot(c))
                done.append((None, s2))
                cur = cur.copy()
                cur.pc = cand(cur.pc, c)
            nxt = []
            for kind, v, ss in self.exec_block(s.body, cur, fr):
                if kind in ('fall', 'continue'):
                    nxt.append((None, ss))
                elif kind == 'break':
                    broken.append((None, ss))
                else:
                    out.append((kind, v, ss))
            cur = self.merge_many(nxt, None)[1] if nxt else None
        if cur is not None:
            done.append((None, cur))
        cur = self.merge_many(done, None)[1] if done else None
        return self._loop_end(s, cur, broken, out, fr)

    # with / try
    def st_With(self, s, st, fr):
        return self._with(list(s.items), s.body, st, fr)

    def _with(self, items, body, st, fr):
        if not items:
            return self.exec_block(body, st, fr)
        it = items[0]
        ctx = self.eval(it.context_expr, st, fr)
        enter = exit_ = None
        if isinstance(ctx, Ref) and isinstance(st.heap[ctx.id], ObjCell):
            cls = st.heap[ctx.id].cls
            o, enter = cls.find('__enter__')
            o, exit_ = cls.find('__exit__')
        val = ctx
        if enter is not None:
            val = self.call(Bound(enter, ctx), [], {}, st)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, val, st, fr)
        if exit_ is None:
            return self._with(items[1:], body, st, fr)
        self.raise_logs.append([])
        try:
            exits = self._with(items[1:], body, st, fr)
        except AbsRaise:
            exits = []
        finally:
            log = self.raise_logs.pop()
        out = []
        for kind, v, ss in exits:
            try:
                self.call(Bound(exit_, ctx), [NONE, NONE, NONE], {}, ss)
                out.append((kind, v, ss))
            except AbsRaise:
                pass
        for pc, kind, ss in log:
            try:
                r = self.call(Bound(exit_, ctx), [of_atom(Atom('exc', (kind, i), )) for i in range(3)], {}, ss)
            except AbsRaise:
                continue
            c = self.decide(ss, self.truth(r, ss))
            if c == TRUE:
                out.append(('fall', None, ss))
            else:
                self.raise_logs[-1].append((ss.pc, kind, ss))
        falls = [(None, x[2]) for x in out if x[0] == 'fall']
        out = [x for x in out if x[0] != 'fall']
        if falls:
            out.append(('fall', None, self.merge_many(falls, None)[1]))
        return out

    def st_Try(self, s, st, fr):
        self.raise_logs.append([])
        self.handlers_active += 1 if s.handlers else 0
        try:
            exits = self.exec_block(s.body, st, fr)
        finally:
            log = self.raise_logs.pop()
            self.handlers_active -= 1 if s.handlers else 0
        outer = []
        self.raise_logs.append(outer)
        try:
            res = []
            for kind, v, ss in exits:
                if kind == 'fall' and s.orelse:
                    res += self.exec_block(s.orelse, ss, fr)
                else:
                    res.append((kind, v, ss))
            for pc, kind, ss in log:
                h = next((h for h in s.handlers if self._exc_match(h.type, kind)), None)
                if h is None:
                    outer.append((pc, kind, ss))
                    continue
                if h.name:
                    self.setvar(ss, fr, h.name, of_atom(Atom('exc', (kind,))))
                old = getattr(self, '_cur_exc', None)
                self._cur_exc = kind
                res += self.exec_block(h.body, ss, fr)
                self._cur_exc = old
        finally:
            self.raise_logs.pop()
        if s.finalbody:
            res2 = []
            for kind, v, ss in res:
                for k2, v2, s2 in self.exec_block(s.finalbody, ss, fr):
                    res2.append((kind, v, s2) if k2 == 'fall' else (k2, v2, s2))
            res = res2
            for pc, kind, ss in outer:
                for k2, v2, s2 in self.exec_block(s.finalbody, ss, fr):
                    if k2 == 'fall':
                        self.raise_logs[-1].append((s2.pc, kind, s2))
                    else:
                        res.append((k2, v2, s2))
        else:
            self.raise_logs[-1].extend(outer)
        falls = [(None, x[2]) for x in res if x[0] == 'fall']
        res = [x for x in res if x[0] != 'fall']
        if falls:
            res.append(('fall', None, self.merge_many(falls, None)[1]))
        return res

    @staticmethod
    def _exc_match(t, kind):
        if t is None:
            return True
        names = []
        for x in (t.elts if isinstance(t, ast.Tuple) else [t]):
            names.append(x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else '?')
        sup = {kind, 'Exception', 'BaseException'}
        if kind == 'ModuleNotFoundError':
            sup.add('ImportError')
        if kind in ('KeyError', 'IndexError'):
            sup.add('LookupError')
        return any(n in sup for n in names)

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            self.setvar(st, fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, st, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, fr)
            self.setattr(o, self.mangle(t.attr, st, fr), v, st)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st, fr)
            k = self.eval(t.slice, st, fr)
            if isinstance(o, Ref):
                self.setitem(o, k, v, st)
            elif isinstance(o, (N, Ite, lib.Arr)) and isinstance(t.value, (ast.Name, ast.Attribute)):
                self.assign(t.value, lib.store_index(self, st, o, k, v), st, fr)
            else:
                raise Undecided('subscript store')
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)
        else:
            raise Undecided('assignment target')

    def unpack(self, t, v, st, fr):
        n = len(t.elts)
        star = next((i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)), None)

        def items(x):
            if isinstance(x, N):
                if x.atom is None or x.atom.op == 'undecided':
                    raise Undecided('unpacking of a number')
                if star is not None:
                    raise Undecided('starred unpacking of symbolic value')
                return tuple(lib.index(self, st, x, num(i)) for i in range(n))
            r = tuple(self.iterate(x, st))
            if star is None and len(r) != n:
                self.raise_(st, 'ValueError')
            return r
        v = self.simp(v, st.pc)
        if isinstance(v, Ite):
            vals = apply(lambda x: Tup(items(x)), v)
            its = [apply(lambda x, i=i: x.items[i], vals) for i in range(n)]
        else:
            its = list(items(v))
        if star is not None:
            k = n - 1 - star
            mid = its[star:len(its) - k]
            its = its[:star] + [self.new_list(st, mid)] + its[len(its) - k:]
        for e, x in zip(t.elts, its):
            self.assign(e, x, st, fr)

    def mangle(self, name, st, fr):
        if name.startswith('__') and not name.endswith('__'):
            c = st.heap[fr.id]
            while c is not None:
                if c.cls is not None:
                    return f'_{c.cls.lstrip("_")}{name}' if isinstance(c.cls, str) else f'_{c.cls.name.lstrip("_")}{name}'
                c = st.heap[c.parent.id] if c.parent is not None else None
        return name

    def setattr(self, o, name, v, st):
        o = self.simp(o, st.pc)
        if isinstance(o, Ite):
            self.fork(o, st, lambda x, s: (self.setattr(x, name, v, s), NONE)[1])
            return
        if isinstance(o, Ref):
            c = st.heap[o.id]
            if isinstance(c, ObjCell):
                if c.cls is not None:
                    ow, p = c.cls.find(name)
                    if isinstance(p, Prop) and name not in c.force:
                        if p.fset is None:
                            self.raise_(st, 'AttributeError')
                        self.call(Bound(p.fset, o), [v], {}, st)
                        return
                st.heap[o.id] = c.set(name, v)
                return
            if isinstance(c, VarCell) and name in ('trainable', '_trainable', 'name', '_name'):
                m = dict(c.meta)
                m[name.lstrip('_')] = v
                st.heap[o.id] = VarCell(c.val, c.name, m)
                return
        if isinstance(o, Mod):
            g = self.mods[o.name]
            st.heap[g.id] = st.heap[g.id].set(name, v)
            return
        if isinstance(o, Cls):
            self.event(st, 'setclsattr', o, C(name), v)
            return
        if isinstance(o, Ext):
            k = ('extattr', o.path, name)
            self.set_ext(st, o.path, name, v)
            return
        if isinstance(o, N):
            self.event(st, 'setattr', o, C(name), self.freeze(v, st))
            self.set_ext(st, o.key, name, v)
            return
        raise Undecided(f'attribute store on {type(o).__name__}')

    EXTCELL = 0

    def set_ext(self, st, path, name, v):
        c = st.heap.get(self.EXTCELL) or DictCell(())
        st.heap[self.EXTCELL] = c.set(C(f'{path}.{name}'), v)

    def get_ext(self, st, path, name):
        c = st.heap.get(self.EXTCELL)
        if c is None:
            return None
        for k, v in c.kv:
            if k.v == f'{path}.{name}':
                return v
        return None

    def setitem(self, o, k, v, st):
        c = st.heap[o.id]
        if isinstance(c, DictCell):
            k = self.simp(k, st.pc)
            if isinstance(k, Ite):
                raise Undecided('gated dict key')
            st.heap[o.id] = c.set(self.hashable(k, st), v)
            return
        if isinstance(c, ListCell):
            if isinstance(k, N) and k.const is not None:
                i = int(k.const)
                items = list(c.items)
                if not -len(items) <= i < len(items):
                    self.raise_(st, 'IndexError')
                items[i] = v
                st.heap[o.id] = ListCell(items, c.kind)
                return
            if isinstance(k, N) and k.atom is not None and k.atom.op == 'slice':
                sl = lib.slice_const(k.atom)
                if sl is not None:
                    items = list(c.items)
                    items[sl] = list(self.iterate(v, st))
                    st.heap[o.id] = ListCell(items, c.kind)
                    return
        if isinstance(c, VarCell):
            st.heap[o.id] = VarCell(lib.store_index(self, st, c.val, k, v), c.name, c.meta)
            return
        if isinstance(c, ObjCell) and c.cls is not None:
            ow, f = c.cls.find('__setitem__')
            if f is not None:
                self.call(Bound(f, o), [k, v], {}, st)
                return
        raise Undecided('item store')

    def hashable(self, k, st):
        if isinstance(k, Ref) and isinstance(st.heap[k.id], (ListCell,)):
            return Tup(st.heap[k.id].items)
        return k

    # ------------------------------------------------------------ functions & classes
    def mk_func(self, s, st, fr, decorate=True, qual_prefix=None):
        f = st.heap[fr.id]
        a = s.args
        defaults = [self.eval(d, st, fr) for d in a.defaults]
        kwd = [self.eval(d, st, fr) if d is not None else None for d in a.kw_defaults]
        cls = f.cls if isinstance(f.cls, str) else None
        incls = getattr(self, '_class_frames', {}).get(fr.id)
        name = s.name if not isinstance(s, ast.Lambda) else f'<lambda:{_norm_lambda(s)}>'
        closure = fr
        if incls is not None:
            qual = f'{incls}.{name}'
            closure = f.parent
        else:
            qual = f'{f.mod}.{name}'
        if closure is not None and closure == self.mods.get(f.mod):
            closure = None
        fn = Func(s, f.mod, closure, tuple(defaults), tuple(kwd), qual, incls, (), self.file_of(f.mod))
        v = fn
        if decorate and not isinstance(s, ast.Lambda):
            for d in reversed(s.decorator_list):
                dv = self.eval(d, st, fr)
                v = self.decorate(dv, v, st, fr)
        return v

    def decorate(self, d, v, st, fr):
        return self.call(d, [v], {}, st)

    def mk_class(self, s, st, fr):
        f = st.heap[fr.id]
        bases = []
        for b in s.bases:
            bv = self.eval(b, st, fr)
            if isinstance(bv, Cls):
                bases.append(bv.info)
            elif isinstance(bv, Ext):
                bases.append(self.ext_class(bv.path))
            else:
                raise Undecided(f'base class of {s.name}')
        qual = f'{f.mod}.{s.name}'
        cf = self.alloc(st, FrameCell({}, fr if fr != self.mods.get(f.mod) else None, f.mod, s.name))
        if not hasattr(self, '_class_frames'):
            self._class_frames = {}
        self._class_frames[cf.id] = qual
        for x in s.body:
            try:
                ex = self.exec_block([x], st, cf)
            except Undecided as e:
                for n in ast.walk(x):
                    if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n in s.body:
                        self.setvar(st, cf, n.name, of_atom(Atom('undecided', (f'{qual}.{n.name}: {e}',))))
                    elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        self.setvar(st, cf, n.id, of_atom(Atom('undecided', (f'{qual}.{n.id}: {e}',))))
                continue
            if ex:
                st.become(ex[-1][2])
        attrs = {}
        for k, v in st.heap[cf.id].vars.items():
            attrs[k if not (k.startswith('__') and not k.endswith('__')) else f'_{s.name.lstrip("_")}{k}'] = v
        info = ClsInfo(s.name, qual, f.mod, bases, attrs, s, bool(self.loading and self.loading[-1][1]), self.file_of(f.mod))
        v = Cls(info)
        for d in reversed(s.decorator_list):
            dv = self.eval(d, st, fr)
            r = self.decorate(dv, v, st, fr)
            if isinstance(r, Cls):
                v = r
        return v

    _extcls = {}

    def ext_class(self, path):
        if path in self.stubs:
            return self.stubs[path].info
        if path not in self._extcls:
            self._extcls[path] = ClsInfo(path.rsplit('.', 1)[-1], path, None, [], {}, None, True)
            self._extcls[path].external = True
        return self._extcls[path]

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw, st, node=None):
        f = self.simp(f, st.pc)
        if isinstance(f, Ite):
            return self.fork(f, st, lambda x, s: self.call(x, args, kw, s, node))
        if isinstance(f, Bound):
            return self.call_bound(f, args, kw, st, node)
        if isinstance(f, Func):
            return self.call_func(f, args, kw, st, node)
        if isinstance(f, StaticM):
            return self.call(f.fn, args, kw, st, node)
        if isinstance(f, ClassM):
            raise Undecided('unbound classmethod')
        if isinstance(f, Partial):
            k = dict(f.kw)
            k.update(kw)
            return self.call(f.fn, list(f.args) + list(args), k, st, node)
        if isinstance(f, PyFn):
            return f.fn(self, st, list(args), dict(kw))
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw, st, node)
        if isinstance(f, Ext):
            return lib.call_ext(self, st, f.path, list(args), dict(kw), node)
        if isinstance(f, BoundSym):
            return lib.call_method(self, st, f.obj, f.name, list(args), dict(kw), node)
        if isinstance(f, Ref):
            c = st.heap[f.id]
            if isinstance(c, DispCell):
                return self.dispatch(f, c, args, kw, st, node)
            if isinstance(c, ObjCell) and c.cls is not None:
                o, m = c.cls.find('__call__')
                if m is not None:
                    return self.call(Bound(m, f), args, kw, st, node)
        if isinstance(f, N):
            return lib.call_symbolic(self, st, f, list(args), dict(kw), node)
        if isinstance(f, Prop):
            raise Undecided('property called')
        raise Undecided(f'call of {f.key[:80]}')

    def call_bound(self, f, args, kw, st, node=None):
        fn = f.fn
        if isinstance(fn, StaticM):
            return self.call(fn.fn, args, kw, st, node)
        if isinstance(fn, ClassM):
            s = f.self
            if isinstance(s, Ref):
                s = Cls(st.heap[s.id].cls)
            return self.call(fn.fn, [s] + list(args), kw, st, node)
        if isinstance(fn, Ref) and isinstance(st.heap[fn.id], DispCell):
            return self.dispatch(fn, st.heap[fn.id], [f.self] + list(args), kw, st, node)
        return self.call(fn, [f.self] + list(args), kw, st, node)

    def dispatch_class(self, v, st):
        """class (ClsInfo) or builtin type name of a value"""
        if isinstance(v, Ref):
            c = st.heap[v.id]
            if isinstance(c, ObjCell):
                return c.cls
            if isinstance(c, ListCell):
                return c.kind
            if isinstance(c, DictCell):
                return 'dict'
            if isinstance(c, VarCell):
                return 'tf.Variable'
            return None
        if isinstance(v, C):
            return 'NoneType' if v.v is None else type(v.v).__name__
        if isinstance(v, Tup):
            return 'tuple'
        if isinstance(v, N):
            if v.atom is not None:
                if v.atom.op == 'new' and isinstance(v.atom.args[0], Cls):
                    return v.atom.args[0].info
                if v.atom.op == 'obj':
                    return v.atom.args[1] if len(v.atom.args) > 1 else None
            return 'number'
        if isinstance(v, (Ext, Func, Bound, PyFn, Partial)):
            return 'function'
        if isinstance(v, Cls):
            return 'type'
        return None

    def dispatch(self, ref, c, args, kw, st, node=None):
        i = 1 if c.method else 0
        if isinstance(c.default, Func) and c.default.qual in self.opaque:
            return self.call_opaque(c.default, self.opaque[c.default.qual], args, kw, st)
        if len(args) <= i:
            raise Undecided('dispatch without positional argument')
        a = self.simp(args[i], st.pc)
        if isinstance(a, Ite):
            return self.fork(a, st, lambda x, s: self.dispatch(ref, c, args[:i] + [x] + args[i + 1:], kw, s, node))
        fn = self.dispatch_target(c, a, st)
        return self.call(fn, args, kw, st, node)

    def dispatch_target(self, c, a, st):
        t = self.dispatch_class(a, st)
        best = None
        if isinstance(t, ClsInfo):
            order = {k: n for n, k in enumerate(t.mro)}
            rank = None
            for typ, fn in c.reg:
                ti = typ.info if isinstance(typ, Cls) else self.ext_class(typ.path) if isinstance(typ, Ext) else None
                if ti is None:
                    continue
                if ti in order:
                    r = order[ti]
                elif ti in t.virtual_bases:
                    r = 10**6
                else:
                    continue
                if rank is None or r <= rank:
                    rank, best = r, fn
        elif isinstance(t, str):
            for typ, fn in c.reg:
                if isinstance(typ, Ext) and typ.path in ('builtins.' + t, t):
                    best = fn
                if isinstance(typ, PyFn) and typ.name == t:
                    best = fn
        return best if best is not None else c.default

    def bind(self, f, args, kw, st):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        kw = dict(kw)
        for n in pos:
            if args:
                out[n] = args.pop(0)
                if n in kw:
                    self.raise_(st, 'TypeError')
            elif n in kw:
                out[n] = kw.pop(n)
        nd = len(f.defaults)
        for n, d in zip(pos[len(pos) - nd:], f.defaults):
            out.setdefault(n, d)
        for n, d in zip([x.arg for x in a.kwonlyargs], f.kwdefaults):
            if n in kw:
                out[n] = kw.pop(n)
            elif d is not None:
                out[n] = d
        for n in pos + [x.arg for x in a.kwonlyargs]:
            if n not in out:
                self.raise_(st, 'TypeError')
        if a.vararg is not None:
            out[a.vararg.arg] = Tup(args)
        elif args:
            self.raise_(st, 'TypeError')
        if a.kwarg is not None:
            out[a.kwarg.arg] = self.new_dict(st, [(C(k), v) for k, v in kw.items()])
        elif kw:
            self.raise_(st, 'TypeError')
        return out

    def call_func(self, f, args, kw, st, node=None):
        op = self.opaque.get(f.qual)
        if op is None and f.cls is not None:
            op = self.opaque.get(f.qual.split('.', 1)[-1]) if False else op
        if op is not None:
            return self.call_opaque(f, op, args, kw, st)
        if 'memo' in f.wrap:
            base = f.with_(wrap=tuple(w for w in f.wrap if w != 'memo'))
            v = self.call_func(base, args, kw, st, node)
            return self.memoize(v, args, kw, st)
        if self.depth > self.MAXDEPTH:
            raise Undecided(f'call depth exceeded in {f.qual}')
        if not f.mod.startswith('stub:') and not f.mod.startswith('spec:'):
            self.analysed[f.qual + (f':{f.node.lineno}' if f.qual.endswith('._') else '')] = (f.file, f.node.lineno)
        bound = self.bind(f, args, kw, st)
        fr = self.alloc(st, FrameCell(bound, f.closure, f.mod, f.cls.rsplit('.', 1)[-1] if f.cls else None))
        if f.cls is not None:
            st.heap[fr.id] = st.heap[fr.id].set('__class__', self._cls_cell(f.cls))
        self.depth += 1
        self.callstack.append(f.qual)
        entry = st.pc
        nlog = len(self.raise_logs)
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.eval(f.node.body, st, fr)
                return v
            gen = _has_yield(f.node)
            if gen:
                y = self.new_list(st, [])
                self.setvar(st, fr, '$yield', y)
            exits = self.exec_block(f.node.body, st, fr)
        finally:
            self.depth -= 1
            self.callstack.pop()
            del self.raise_logs[nlog:]
        pairs = []
        for kind, v, ss in exits:
            if kind == 'return':
                pairs.append((v, ss))
            elif kind == 'fall':
                pairs.append((NONE, ss))
            else:
                raise Undecided(f'{kind} outside loop')
        if not pairs:
            raise AbsRaise()
        v, s = self.merge_many(pairs, entry)
        st.become(s)
        if gen:
            return y
        return v

    def _cls_cell(self, qual):
        return C(('$cls', qual))

    def find_class(self, qual, st):
        mod, name = qual.rsplit('.', 1)
        g = st.heap[self.mods[mod].id]
        v = g.vars.get(name)
        if isinstance(v, Cls):
            return v.info
        raise Undecided(f'class {qual} not found')

    def memoize(self, v, args, kw, st):
        """result of a memoised function: only harmless if it does not depend on mutable state"""
        fz = self.freeze(v, st)
        return of_atom(Atom('memo', (fz,)))

    def call_opaque(self, f, op, args, kw, st):
        b = self.bind(f, args, kw, st)
        a = f.node.args
        if a.kwarg is not None:
            d = st.heap[b.pop(a.kwarg.arg).id]
            for k, v in d.kv:
                b[k.v] = v
        if isinstance(op, dict) and op.get('drop'):
            for k in op['drop']:
                b.pop(k, None)
        if isinstance(op, dict) and 'fn' in op:
            return op['fn'](self, st, b)
        name = f.qual.rsplit('.', 1)[-1] if not isinstance(op, str) else op
        if isinstance(op, dict) and 'name' in op:
            name = op['name']
        fz = {k: self.freeze(v, st) for k, v in b.items()}
        return self.opaque_result(st, name, DictV([(C(k), v) for k, v in fz.items()]), op if isinstance(op, dict) else {})

    def opaque_result(self, st, name, argd, op):
        def mk(*vals):
            d = DictV([(k, v) for (k, _), v in zip(argd.kv, vals)])
            a = of_atom(Atom('call', (name, d), integral=op.get('integral', False)))
            n = op.get('tuple')
            if n:
                return Tup([of_atom(Atom('idx', (a, num(i)), integral=op.get('integral', False), bnd=(op.get('bnds') or {}).get(i))) for i in range(n)])
            return a
        if op.get('event', True) is not False:
            self.event(st, 'call:' + name, argd)
        return apply(mk, *[v for _, v in argd.kv]) if argd.kv else mk()

    def event(self, st, tag, *vals):
        snap = ()
        if self.watch is not None:
            snap = self.watch(self, st)
        st.events.append((st.pc, tag, Tup(vals), snap))

    def instantiate(self, cv, args, kw, st, node=None):
        info = cv.info
        op = self.opaque.get(info.qual)
        o, init = info.find('__init__')
        if op is not None:
            if init is not None and isinstance(init, Func):
                b = self.bind(init, [NONE] + list(args), kw, st)
                b.pop(init.node.args.args[0].arg)
                if init.node.args.kwarg is not None:
                    d = st.heap[b.pop(init.node.args.kwarg.arg).id]
                    for k, v in d.kv:
                        b[k.v] = v
            else:
                b = {str(i): a for i, a in enumerate(args)}
                b.update(kw)
            if isinstance(op, dict) and 'fn' in op:
                return op['fn'](self, st, b)
            d = DictV([(C(k), self.freeze(v, st)) for k, v in b.items()])
            return of_atom(Atom('new', (cv, d)))
        if '__opaque_new__' in {k for c in info.mro for k in c.attrs}:
            sig = info.find('__sig__')[1]
            names = [x.v for x in sig.items] if sig is not None else []
            b = {}
            for i, a in enumerate(args):
                b[names[i] if i < len(names) else str(i)] = a
            b.update(kw)
            d = DictV([(C(k), self.freeze(v, st)) for k, v in b.items()])
            self.counter += 1
            return of_atom(Atom('new', (cv, d)))
        if getattr(info, 'external', False):
            return lib.call_ext(self, st, info.qual, list(args), dict(kw), node)
        obj = self.alloc(st, ObjCell(info, {}))
        if isinstance(init, Func):
            self.call(Bound(init, obj), args, kw, st, node)
        elif args or kw:
            # object.__init__
            ext = [c for c in info.mro if getattr(c, 'external', False)]
            if not ext:
                self.raise_(st, 'TypeError')
        return obj

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name, st, default=None):
        o = self.simp(o, st.pc)
        if isinstance(o, Ite):
            return self.fork(o, st, lambda x, s: self.getattr(x, name, s, default))
        if isinstance(o, Ext):
            v = self.get_ext(st, o.path, name)
            if v is not None:
                return v
            if name in ('__name__', '__qualname__'):
                return C(o.path.rsplit('.', 1)[-1])
            return self.ext(o.path + '.' + name)
        if isinstance(o, Mod):
            return self.mod_attr(o.name, name, st)
        if isinstance(o, SuperV):
            ow, v = o.cls_find(name) if hasattr(o, 'cls_find') else self._super_find(o, name, st)
            if v is None:
                if default is not None:
                    return default
                return self.super_missing(o, name, st)
            if isinstance(v, Prop):
                return self.call_prop(v, o.self, st, f'{ow.qual}.{name}')
            if isinstance(o.self, Cls):
                return v if isinstance(v, StaticM) else Bound(v, o.self)
            return self.bind_attr(v, o.self)
        if isinstance(o, Cls):
            if name == '__name__' or name == '__qualname__':
                return C(o.info.name)
            if name == '__module__':
                return C(o.info.mod)
            ow, v = o.info.find(name)
            if v is None:
                if name == 'from_config':
                    return PyFn('from_config', lambda it, s, a, k: it.call(o, [], {x.v: y for x, y in it.dict_items(a[0], s)}, s))
                if name in ('register',):
                    return BoundSym(o, name)
                if default is not None:
                    return default
                if any(getattr(c, 'external', False) for c in o.info.mro):
                    ec = next(c for c in o.info.mro if getattr(c, 'external', False))
                    return self.ext(ec.qual + '.' + name)
                self.raise_(st, 'AttributeError')
            if isinstance(v, ClassM):
                return Bound(v, o)
            if isinstance(v, StaticM):
                return v.fn
            return v
        if isinstance(o, Ref):
            c = st.heap[o.id]
            if isinstance(c, ObjCell):
                return self.obj_attr(o, c, name, st, default)
            if isinstance(c, VarCell):
                return lib.var_attr(self, st, o, c, name)
            if isinstance(c, DispCell):
                if name == 'registry':
                    return self.new_dict(st, [(t, f) for t, f in c.reg] + [(Ext('builtins.object'), c.default)])
                return BoundSym(o, name)
            if isinstance(c, Altern):
                return self.branch(c.cond, st, lambda s: self._alt_attr(o, c.a, name, s, default), lambda s: self._alt_attr(o, c.b, name, s, default))
            return BoundSym(o, name)
        if isinstance(o, (Func, Bound, Partial, PyFn)):
            if name == '__name__':
                f = o
                while not isinstance(f, Func):
                    f = f.fn
                return C(f.qual.rsplit('.', 1)[-1])
            if name in ('python_function', '__wrapped__', 'func', '__func__'):
                return o
            if name == '__self__' and isinstance(o, Bound):
                return o.self
            if name in ('setter', 'getter'):
                return BoundSym(o, name)
            if isinstance(o, Bound) and isinstance(o.fn, Ref):
                return self.getattr(o.fn, name, st)
            if default is not None:
                return default
            raise Undecided(f'function attribute {name}')
        if isinstance(o, Prop):
            return BoundSym(o, name)
        return lib.sym_attr(self, st, o, name, default)

    def _alt_attr(self, o, cell, name, st, default):
        st.heap[o.id] = cell
        return self.getattr(o, name, st, default)

    def _super_find(self, o, name, st):
        s = o.self
        cls = s.info if isinstance(s, Cls) else st.heap[s.id].cls
        return cls.find(name, after=o.cls)

    def super_missing(self, o, name, st):
        if name in ('__init__', '__setattr__', '__init_subclass__', '__enter__', '__exit__'):
            return PyFn('noop', lambda it, s, a, k: NONE)
        raise Undecided(f'super().{name} resolves outside the analysed classes')

    def bind_attr(self, v, obj):
        if isinstance(v, (Func, ClassM)):
            return Bound(v, obj)
        if isinstance(v, StaticM):
            return v.fn
        return v

    def call_prop(self, p, obj, st, qual=None):
        fn = p.fget
        v = self.call(fn if isinstance(fn, StaticM) else Bound(fn, obj), [], {}, st)
        if p.memo:
            return self.memoize(v, [], {}, st)
        return v

    def obj_attr(self, o, c, name, st, default=None):
        if name in c.force:
            v = c.force[name]
            if isinstance(v, PyFn) and v.name == '$lazy':
                return v.fn(self, st, [o], {})
            return v
        if c.cls is not None:
            ow, v = c.cls.find(name)
            if isinstance(v, Prop):
                return self.call_prop(v, o, st)
            if name in c.attrs:
                x = self.simp(c.attrs[name], st.pc)
                if not _maybe_undef(x):
                    return x
                if x != UNDEF:
                    # conditionally defined attribute
                    def leaf(y, s):
                        if y == UNDEF:
                            if v is not None:
                                return self.bind_attr(v, o)
                            return self.attr_missing(o, c, name, s, default)
                        return y
                    return self.fork(x, st, leaf)
            if v is not None:
                if isinstance(v, Ref) and isinstance(st.heap[v.id], DispCell):
                    return Bound(v, o) if st.heap[v.id].method else v
                return self.bind_attr(v, o)
            if name == '__class__':
                return Cls(c.cls)
            if name == '__dict__':
                return self.new_dict(st, [(C(k), x) for k, x in c.attrs.items()])
            ow, g = c.cls.find('__getattr__')
            if g is not None:
                return self.call(Bound(g, o), [C(name)], {}, st)
        elif name in c.attrs:
            return c.attrs[name]
        return self.attr_missing(o, c, name, st, default)

    def attr_missing(self, o, c, name, st, default):
        if c.open or (c.cls is not None and any(getattr(k, 'external', False) for k in c.cls.mro)):
            return of_atom(Atom('attr', (self.ident(o, c), name)))
        if default is not None:
            return default
        self.raise_(st, 'AttributeError')

    def ident(self, o, c):
        return of_atom(Atom('obj', (c.name or f'obj{o.id}', c.cls)))

    def hasattr(self, o, name, st):
        o = self.simp(o, st.pc)
        if isinstance(o, Ite):
            return self.fork(o, st, lambda x, s: self.hasattr(x, name, s))
        if isinstance(o, Ref):
            c = st.heap[o.id]
            if isinstance(c, ObjCell):
                if name in c.force:
                    return TRUE
                if name in c.attrs:
                    x = c.attrs[name]
                    if not _maybe_undef(x):
                        return TRUE
                    if c.cls is None or c.cls.find(name)[1] is None:
                        return self.simp(apply(lambda y: C(y != UNDEF), x), st.pc)
                if c.cls is not None:
                    ow, v = c.cls.find(name)
                    if isinstance(v, Prop):
                        # a property "exists" when its getter does not raise AttributeError
                        s2 = st.copy()
                        self.raise_logs.append([])
                        try:
                            self.call_prop(v, o, s2)
                        except AbsRaise:
                            pass
                        finally:
                            log = self.raise_logs.pop()
                        bad = FALSE
                        for pc, kind, _ in log:
                            if kind == 'AttributeError':
                                bad = cor(bad, pc)
                        return self.decide(st, cnot(bad))
                    if v is not None:
                        return TRUE
                if c.open:
                    return cond_atom(Atom('hasattr', (self.ident(o, c), name)))
                return FALSE
            if isinstance(c, VarCell):
                return C(name in ('shape', 'numpy', 'assign', 'name', 'dtype', 'value', 'trainable'))
            if isinstance(c, ListCell):
                return C(hasattr([] if c.kind == 'list' else set(), name))
            if isinstance(c, DictCell):
                return C(hasattr({}, name))
        if isinstance(o, Cls):
            return C(o.info.find(name)[1] is not None or name == '__name__')
        return lib.sym_hasattr(self, st, o, name)

    # ------------------------------------------------------------ iteration & items
    def iterate(self, v, st):
        v = self.simp(v, st.pc)
        if isinstance(v, (Tup, lib.Arr)):
            return list(v.items)
        if isinstance(v, DictV):
            return [k for k, _ in v.kv]
        if isinstance(v, C) and isinstance(v.v, str):
            return [C(x) for x in v.v]
        if isinstance(v, Ref):
            c = st.heap[v.id]
            if isinstance(c, ListCell):
                return list(c.items)
            if isinstance(c, DictCell):
                if c.sym is not None:
                    raise Undecided('iteration over an open dict')
                if any(_maybe_undef(x) for _, x in c.kv):
                    raise Undecided('iteration over a gated dict')
                return [k for k, _ in c.kv]
        if isinstance(v, N) and v.atom is not None:
            sh = lib.shape_of(self, st, v)
            if sh is not None and isinstance(sh, Tup) and sh.items and sh.items[0].__class__ is N and sh.items[0].const is not None:
                return [lib.index(self, st, v, num(i)) for i in range(int(sh.items[0].const))]
        if isinstance(v, Ite):
            n = None
            leaves = _leaves(v)
            seqs = {}
            for l in leaves:
                seqs[l.key] = self.iterate(l, st)
                if n is None:
                    n = len(seqs[l.key])
                elif n != len(seqs[l.key]):
                    raise Undecided('iteration over gated sequences of different length')
            return [apply(lambda x, i=i: seqs[x.key][i], v) for i in range(n)]
        raise Undecided(f'iteration over {v.key[:80]}')

    def dict_items(self, v, st):
        if isinstance(v, DictV):
            return list(v.kv)
        if isinstance(v, Ref):
            c = st.heap[v.id]
            if isinstance(c, DictCell):
                return list(c.kv)
        raise Undecided('mapping expected')

    # ------------------------------------------------------------ expressions
    def eval(self, e, st, fr):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise Undecided(f'expression {type(e).__name__}')
        return m(e, st, fr)

    def ev_Constant(self, e, st, fr):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
            return C(v)
        if isinstance(v, (int, float)):
            return num(v)
        if v is Ellipsis:
            return C(Ellipsis)
        raise Undecided('constant')

    def ev_Name(self, e, st, fr):
        return self.simp(self.getvar(st, fr, e.id), st.pc)

    def ev_Attribute(self, e, st, fr):
        o = self.eval(e.value, st, fr)
        return self.simp(self.getattr(o, self.mangle(e.attr, st, fr), st), st.pc)

    def ev_NamedExpr(self, e, st, fr):
        v = self.eval(e.value, st, fr)
        f = fr
        # comprehension frames are marked; bind in the enclosing frame
        while '$comp' in st.heap[f.id].vars:
            f = st.heap[f.id].parent or self.mods[st.heap[f.id].mod]
        self.setvar(st, f, e.target.id, v)
        return v

    def ev_Tuple(self, e, st, fr):
        return Tup(self.eval_seq(e.elts, st, fr))

    def ev_List(self, e, st, fr):
        return self.new_list(st, self.eval_seq(e.elts, st, fr))

    def ev_Set(self, e, st, fr):
        return self.new_list(st, _dedup(self.eval_seq(e.elts, st, fr)), 'set')

    def eval_seq(self, elts, st, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += self.iterate(self.eval(x.value, st, fr), st)
            else:
                out.append(self.eval(x, st, fr))
        return out

    def ev_Dict(self, e, st, fr):
        c = DictCell(())
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.eval(v, st, fr)
                if isinstance(d, Ref) and isinstance(st.heap[d.id], DictCell) and st.heap[d.id].sym is not None:
                    if c.sym is not None:
                        raise Undecided('two open dicts')
                    c = DictCell(c.kv, st.heap[d.id].sym)
                for a, b in self.dict_items(d, st):
                    c = c.set(a, b)
            else:
                kk = self.eval(k, st, fr)
                c = c.set(self.hashable(self.simp(kk, st.pc), st), self.eval(v, st, fr))
        return self.alloc(st, c)

    def ev_JoinedStr(self, e, st, fr):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(C(p.value))
            else:
                v = self.eval(p.value, st, fr)
                if p.format_spec is not None or p.conversion not in (-1, 115):
                    v = of_atom(Atom('fmt', (self.freeze(v, st), ast.dump(p.format_spec) if p.format_spec else '', p.conversion)))
                parts.append(v)
        return lib.concat_str(self, st, parts)

    def ev_FormattedValue(self, e, st, fr):
        return self.eval(e.value, st, fr)

    def ev_Lambda(self, e, st, fr):
        return self.mk_func(e, st, fr)

    def ev_IfExp(self, e, st, fr):
        c = self.truth(self.eval(e.test, st, fr), st)
        return self.branch(c, st, lambda s: self.eval(e.body, s, fr), lambda s: self.eval(e.orelse, s, fr))

    def ev_BoolOp(self, e, st, fr):
        def go(i, s):
            v = self.eval(e.values[i], s, fr)
            if i == len(e.values) - 1:
                return v
            c = self.truth(v, s)
            if isinstance(e.op, ast.And):
                return self.branch(c, s, lambda s2: go(i + 1, s2), lambda s2: v)
            return self.branch(c, s, lambda s2: v, lambda s2: go(i + 1, s2))
        return go(0, st)

    def ev_UnaryOp(self, e, st, fr):
        v = self.eval(e.operand, st, fr)
        if isinstance(e.op, ast.Not):
            return cnot(self.truth(v, st))
        return self.unop(e.op, v, st)

    def unop(self, op, v, st):
        def f(x):
            x = self.tonum_or_cond(x, st)
            if isinstance(op, ast.Invert):
                if x == TRUE or x == FALSE:
                    return C(not x.v)
                if isinstance(x, N):
                    if x.const is not None:
                        return num(~int(x.const))
                    return of_atom(Atom('invert', (x,)))
                raise Undecided('~')
            x = lib.to_n(x)
            return neg(x) if isinstance(op, ast.USub) else x
        v = self.deref(v, st)
        if isinstance(op, ast.Invert) and isinstance(v, Ite) and is_cond(v):
            return cnot(v)
        return lib.lift(f, v)

    def tonum_or_cond(self, x, st):
        return self.deref(x, st)

    def deref(self, v, st):
        """read tf.Variables; lists stay references"""
        if isinstance(v, Ref):
            c = st.heap[v.id]
            if isinstance(c, VarCell):
                return self.simp(c.val, st.pc)
            return v
        if isinstance(v, Ite) and not is_cond(v):
            return apply(lambda x: self.deref(x, st), v)
        return v

    def ev_BinOp(self, e, st, fr):
        a = self.eval(e.left, st, fr)
        b = self.eval(e.right, st, fr)
        return self.binop(e.op, a, b, st)

    def binop(self, op, a, b, st):
        a, b = self.deref(a, st), self.deref(b, st)
        return lib.binop(self, st, op, a, b)

    def ev_Compare(self, e, st, fr):
        left = self.eval(e.left, st, fr)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, st, fr)
            c = lib.compare(self, st, op, left, right)
            res = c if res is None else cand(self.truth(res, st), self.truth(c, st))
            left = right
        return self.simp(res, st.pc)

    def ev_Subscript(self, e, st, fr):
        o = self.eval(e.value, st, fr)
        k = self.eval(e.slice, st, fr)
        return self.getitem(o, k, st)

    def getitem(self, o, k, st):
        o, k = self.simp(o, st.pc), self.simp(k, st.pc)
        if isinstance(o, Ite) and not is_cond(o):
            return self.fork(o, st, lambda x, s: self.getitem(x, k, s))
        if isinstance(k, Ite) and not is_cond(k):
            return self.fork(k, st, lambda x, s: self.getitem(o, x, s))
        if isinstance(o, Ref):
            c = st.heap[o.id]
            if isinstance(c, DictCell):
                k = self.hashable(k, st)
                for a, b in c.kv:
                    if a == k:
                        b = self.simp(b, st.pc)
                        if b == UNDEF:
                            self.raise_(st, 'KeyError')
                        if _maybe_undef(b):
                            return self.fork(b, st, lambda x, s: x if x != UNDEF else self.raise_(s, 'KeyError'))
                        return b
                if c.sym is not None:
                    return of_atom(Atom('item', (c.sym, k)))
                if isinstance(k, N) and k.const is None:
                    raise Undecided('symbolic dict key')
                if isinstance(k, N) and c.kv and all(isinstance(a, N) for a, _ in c.kv):
                    self.raise_(st, 'KeyError')
                # symbolic string key
                self.raise_(st, 'KeyError')
            if isinstance(c, VarCell):
                return lib.index(self, st, c.val, k)
            if isinstance(c, ObjCell) and c.cls is not None:
                ow, f = c.cls.find('__getitem__')
                if f is not None:
                    return self.call(Bound(f, o), [k], {}, st)
                raise Undecided('item of object')
            if isinstance(c, ListCell):
                return self.seq_item(c.items, k, st, True)
            if isinstance(c, Altern):
                return self.branch(c.cond, st, lambda s: self._alt_item(o, c.a, k, s), lambda s: self._alt_item(o, c.b, k, s))
        if isinstance(o, Tup):
            return self.seq_item(o.items, k, st, False)
        if isinstance(o, C) and isinstance(o.v, str):
            kk = k
            if isinstance(kk, N) and kk.const is not None:
                return C(o.v[int(kk.const)])
            if isinstance(kk, N) and kk.atom is not None and kk.atom.op == 'slice':
                sl = lib.slice_const(kk.atom)
                if sl is not None:
                    return C(o.v[sl])
        if isinstance(o, (Cls, Ext)):   # typing generics
            return o
        return lib.index(self, st, o, k)

    def _alt_item(self, o, cell, k, st):
        st.heap[o.id] = cell
        return self.getitem(o, k, st)

    def seq_item(self, items, k, st, is_list):
        if isinstance(k, C) and isinstance(k.v, bool):
            k = num(int(k.v))
        if isinstance(k, N):
            if k.const is not None:
                i = int(k.const)
                if not -len(items) <= i < len(items):
                    self.raise_(st, 'IndexError')
                return items[i]
            if k.atom is not None and k.atom.op == 'slice':
                sl = lib.slice_const(k.atom)
                if sl is not None:
                    r = items[sl]
                    return self.new_list(st, r) if is_list else Tup(r)
        raise Undecided(f'sequence index {k.key[:60]}')

    def ev_Slice(self, e, st, fr):
        p = [self.eval(x, st, fr) if x is not None else NONE for x in (e.lower, e.upper, e.step)]
        p = [self.deref(x, st) for x in p]
        return apply(lambda *a: of_atom(Atom('slice', a)), *p)

    def ev_Starred(self, e, st, fr):
        raise Undecided('starred expression')

    def ev_Call(self, e, st, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            return self.ev_super(e, st, fr)
        if isinstance(e.func, ast.Name) and e.func.id in ('print', 'warn', '_warn'):
            v = self.getvar(st, fr, e.func.id)
            if (isinstance(v, Ext) and v.path in ('warnings.warn', 'builtins.print')) or (isinstance(v, Func) and v.qual.endswith('.warn')) or isinstance(v, PyFn):
                for a in e.args:
                    if any(isinstance(n, (ast.Call, ast.NamedExpr)) for n in ast.walk(a)):
                        try:
                            self.eval(a, st, fr)
                        except Undecided:
                            pass
                return NONE
        f = self.eval(e.func, st, fr)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.iterate(self.eval(a.value, st, fr), st)
            else:
                args.append(self.eval(a, st, fr))
        for k in e.keywords:
            v = self.eval(k.value, st, fr)
            if k.arg is None:
                v = self.simp(v, st.pc)
                if isinstance(v, Ref) and isinstance(st.heap[v.id], DictCell) and st.heap[v.id].sym is not None:
                    kw['**'] = st.heap[v.id].sym
                for a, b in self.dict_items(v, st):
                    b = self.simp(b, st.pc)
                    if b == UNDEF:
                        continue
                    if _maybe_undef(b):
                        raise Undecided('conditional keyword argument')
                    kw[a.v] = b
            else:
                kw[k.arg] = v
        return self.simp(self.call(f, args, kw, st, e), st.pc)

    def ev_super(self, e, st, fr):
        f = st.heap[fr.id]
        if e.args:
            c = self.eval(e.args[0], st, fr)
            o = self.eval(e.args[1], st, fr)
            return SuperV(c.info, o)
        cur = f
        while '__class__' not in cur.vars:
            if cur.parent is None:
                raise Undecided('super() outside a class')
            cur = st.heap[cur.parent.id]
        qual = cur.vars['__class__'].v[1]
        info = self.find_class(qual, st)
        # first argument of the method
        o = None
        for k, v in cur.vars.items():
            if k != '__class__':
                o = v
                break
        return SuperV(info, o)

    # comprehensions
    def _comp(self, gens, st, fr, emit):
        def go(i, s, f):
            if i == len(gens):
                emit(s, f)
                return
            g = gens[i]
            it = self.eval(g.iter, s, f)
            for x in self.iterate(it, s):
                self.assign(g.target, x, s, f)
                ok = TRUE
                for c in g.ifs:
                    ok = self.decide(s, self.truth(self.eval(c, s, f), s))
                    if ok == FALSE:
                        break
                    if ok != TRUE:
                        raise Undecided('undecided comprehension filter')
                if ok == TRUE:
                    go(i + 1, s, f)
        f = st.heap[fr.id]
        cf = self.alloc(st, FrameCell({'$comp': TRUE}, fr, f.mod, f.cls))
        go(0, st, cf)

    def ev_ListComp(self, e, st, fr):
        out = []
        self._comp(e.generators, st, fr, lambda s, f: out.append(self.eval(e.elt, s, f)))
        return self.new_list(st, out)

    ev_GeneratorExp = ev_ListComp

    def ev_SetComp(self, e, st, fr):
        out = []
        self._comp(e.generators, st, fr, lambda s, f: out.append(self.eval(e.elt, s, f)))
        return self.new_list(st, _dedup(out), 'set')

    def ev_DictComp(self, e, st, fr):
        c = [DictCell(())]

        def emit(s, f):
            k = self.eval(e.key, s, f)
            c[0] = c[0].set(self.hashable(k, s), self.eval(e.value, s, f))
        self._comp(e.generators, st, fr, emit)
        return self.alloc(st, c[0])

    def ev_Yield(self, e, st, fr):
        v = self.eval(e.value, st, fr) if e.value is not None else NONE
        y = self.getvar(st, fr, '$yield')
        c = st.heap[y.id]
        st.heap[y.id] = ListCell(c.items + (v,), c.kind)
        return NONE

    def ev_YieldFrom(self, e, st, fr):
        v = self.eval(e.value, st, fr)
        y = self.getvar(st, fr, '$yield')
        c = st.heap[y.id]
        st.heap[y.id] = ListCell(c.items + tuple(self.iterate(v, st)), c.kind)
        return NONE

    # ------------------------------------------------------------ freezing
    def freeze(self, v, st, depth=0, seen=()):
        """heap-independent structural value"""
        if isinstance(v, Ref):
            if v.id in seen or depth > 12:
                return C(f'<rec {v.id}>')
            return self.freeze_cell(v, st.heap[v.id], st, depth, seen + (v.id,))
        if isinstance(v, Tup):
            return Tup([self.freeze(x, st, depth + 1, seen) for x in v.items])
        if isinstance(v, Ite):
            if is_cond(v):
                return v
            return apply(lambda x: self.freeze(x, st, depth, seen), v)
        if isinstance(v, Partial):
            return Tup([C('partial'), self.freeze(v.fn, st), Tup([self.freeze(x, st, depth + 1, seen) for x in v.args]),
                        DictV([(C(k), self.freeze(x, st, depth + 1, seen)) for k, x in v.kw])])
        if isinstance(v, Bound):
            return Tup([C('bound'), self.freeze(v.fn, st), self.freeze(v.self, st, depth + 1, seen)])
        if isinstance(v, Func):
            return C(f'fn:{v.qual}')
        if isinstance(v, BoundSym):
            return Tup([C('boundsym'), self.freeze(v.obj, st, depth + 1, seen), C(v.name)])
        return v

    def freeze_cell(self, ref, c, st, depth, seen):
        if isinstance(c, ListCell):
            items = [self.freeze(x, st, depth + 1, seen) for x in c.items]
            if c.kind == 'set':
                items = sorted(items, key=lambda x: x.key)
            return Tup(items)
        if isinstance(c, DictCell):
            kv = [(self.freeze(k, st, depth + 1, seen), self.freeze(x, st, depth + 1, seen)) for k, x in c.kv]
            kv = [(k, x) for k, x in kv if x != UNDEF]
            if c.sym is not None:
                kv.append((C('**'), c.sym))
            return DictV(kv)
        if isinstance(c, VarCell):
            return self.freeze(c.val, st, depth + 1, seen)
        if isinstance(c, ObjCell):
            if c.name is not None:
                return of_atom(Atom('obj', (c.name, c.cls)))
            return of_atom(Atom('obj', (c.cls.name if c.cls else '?', c.cls, DictV([(C(k), self.freeze(x, st, depth + 1, seen)) for k, x in sorted(c.attrs.items()) if x != UNDEF]))))
        if isinstance(c, Altern):
            return ite(c.cond, self.freeze_cell(ref, c.a, st, depth, seen), self.freeze_cell(ref, c.b, st, depth, seen))
        if isinstance(c, DispCell):
            return C(f'disp:{c.qual}')
        return C(f'<cell {type(c).__name__}>')

    # ------------------------------------------------------------ entry helpers
    def lookup(self, path, st=None):
        """value of a dotted repository name (module attribute / class member)"""
        st = st or self.st0
        parts = path.split('.')
        for n in range(len(parts), 0, -1):
            m = '.'.join(parts[:n])
            if m in self.sources:
                v = Mod(m)
                for p in parts[n:]:
                    if isinstance(v, Mod):
                        v = self.mod_attr(v.name, p, st)
                    elif isinstance(v, Cls):
                        ow, x = v.info.find(p)
                        if x is None:
                            raise AnchorGone(f'{path}: no attribute {p}')
                        v = x
                    else:
                        raise AnchorGone(path)
                return v
        raise AnchorGone(path)


def _maybe_undef(v):
    if v == UNDEF:
        return True
    if isinstance(v, Ite):
        return _maybe_undef(v.h) or _maybe_undef(v.l)
    return False


def _leaves(v):
    out, seen, stack = [], set(), [v]
    while stack:
        x = stack.pop()
        if x.key in seen:
            continue
        seen.add(x.key)
        if isinstance(x, Ite):
            stack += [x.h, x.l]
        else:
            out.append(x)
    return out


def _dedup(items):
    out = []
    for x in items:
        if x not in out:
            out.append(x)
    return out


def _norm_lambda(s):
    """alpha-normalised text of a lambda"""
    names = {a.arg: f'_{i}' for i, a in enumerate(s.args.args)}

    class R(ast.NodeTransformer):
        def visit_Name(self, n):
            return ast.copy_location(ast.Name(id=names.get(n.id, n.id), ctx=n.ctx), n)
    import copy
    b = R().visit(copy.deepcopy(s.body))
    return ast.unparse(b)


_yc = {}


def _has_yield(node):
    k = id(node)
    if k not in _yc:
        r = False
        stack = list(node.body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        _yc[k] = r
    return _yc[k]
