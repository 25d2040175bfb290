"""Forward symbolic execution of the real Python functions, loop by loop with
inductive invariants, call by call with contracts.  Produces proof obligations."""
import ast

import z3

from . import solver
from .loader import ClassInfo, External, FuncInfo, ModuleInfo
from .values import *
from .values import _sub

MAX_PATHS = 1500
import os
DEBUG_DROP = os.environ.get("PYVC_DROP")


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class RaiseEx(Exception):
    def __init__(self, etype, implicit=False):
        self.etype, self.implicit = etype, implicit


class Infeasible(Exception):
    pass


class Dec:
    def __init__(self, pre, work, cache):
        self.pre, self.work, self.cache = list(pre), work, cache
        self.i = 0
        self.taken = []


class Outcome:
    def __init__(self, kind, val, snap):
        self.kind, self.val, self.snap = kind, val, snap

    @property
    def pc(self):
        return self.snap.pc


class Snap:
    __slots__ = ("frames", "heap", "pc", "ctr", "views", "stale", "esrc", "events")

    def __init__(self, frames, heap, pc, ctr, views, stale, esrc, events):
        self.events = events
        self.frames, self.heap, self.pc, self.ctr = frames, heap, pc, ctr
        self.views, self.stale, self.esrc = views, stale, esrc


class Obligation:
    def __init__(self, name, pc, goal, where):
        self.name, self.pc, self.goal, self.where = name, pc, goal, where


class SV:
    """read access to a snapshot (or the live state) for specifications"""

    def __init__(self, env, heap, k=None):
        self.env, self.heap, self.k = env, heap, k

    def deref(self, v):
        return deref_in(self.heap, v)

    def var(self, name):
        return self.deref(self.env[name])

    def attr(self, obj, name):
        o = self.heap[obj.id]
        return self.deref(o.attrs[name])

    def loc(self, loc):
        if loc[0] == "var":
            return self.deref(self.env[loc[1]])
        if loc[0] == "attr":
            return self.deref(self.heap[loc[1]].attrs[loc[2]])
        return self.heap[loc[1]]


def deref_in(heap, v):
    while True:
        if isinstance(v, Ref):
            return heap[v.id]
        if isinstance(v, ElemRef):
            b = deref_in(heap, v.base)
            return elem_value(b, v.idx)
        return v


def elem_value(b, idx):
    if isinstance(b, SeqV):
        return b.get(idx)
    if isinstance(b, ArrV):
        if b.ndim == 1:
            return b.get(idx)
        sub = b.shape[1:]
        if len(sub) == 1:
            return SeqV(sub[0], lambda i: b.get(idx, i), "arr", b.dtype)
        return ArrV(sub, lambda *i: b.get(idx, *i), b.dtype)
    if isinstance(b, DictV):
        if b.cd is not None:
            return b.cd[idx]
        return b.get(idx)
    if isinstance(b, Opaque):
        return Opaque("elem", b.alias)
    raise Unsupported("elem_value")


class Exec:
    def __init__(self, prog, contracts=None, models=None, hints=None):
        self.prog = prog
        self.contracts = contracts or {}
        self.models = models
        self.frames = []
        self.heap = {}
        self.pc = []
        self.ctr = 0
        self.views = {}
        self.stale = {}
        self.esrc = {}       # container cell -> cells its elements may be identical to (missing: unknown)
        self.pend = set()
        self.dec = None
        self.obls = []
        self.dry = False
        self.hints = hints  # contract under verification: loop templates
        self.assumptions = set()
        self.inlined = set()
        self.used_contracts = set()
        self.depth = 0
        self.loops = 0
        self.inv_log = []
        self.warned = []
        self.sizes = []      # size terms for generic templates
        self.events = []
        self.inline_deny = set()
        self.houd_ms = 3000
        self.houd_rl = 2000000

    # ------------------------------------------------------------ state
    @property
    def env(self):
        return self.frames[-1]

    def snapshot(self):
        return Snap([dict(f) for f in self.frames], dict(self.heap), list(self.pc), self.ctr,
                    dict(self.views), dict(self.stale), dict(self.esrc), tuple(self.events))

    def restore(self, s):
        while len(self.frames) > len(s.frames):
            self.frames.pop()
        while len(self.frames) < len(s.frames):
            self.frames.append({})
        for f, g in zip(self.frames, s.frames):
            f.clear()
            f.update(g)
        self.heap.clear()
        self.heap.update(s.heap)
        self.pc[:] = s.pc
        self.ctr = s.ctr
        self.views.clear()
        self.views.update(s.views)
        self.stale.clear()
        self.stale.update(s.stale)
        self.esrc.clear()
        self.esrc.update(s.esrc)
        self.events = list(s.events)

    def uid(self):
        self.ctr += 1
        return self.ctr

    def fint(self, nm="i"):
        return z3.Int(f"{nm}!{self.uid()}")

    def fbool(self, nm="b"):
        return z3.Bool(f"{nm}!{self.uid()}")

    def ffl(self, nm="f"):
        u = self.uid()
        return Fl(z3.Real(f"{nm}!{u}"), z3.Bool(f"{nm}.nan!{u}"))

    def ffun(self, nm, *sorts):
        return z3.Function(f"{nm}!{self.uid()}", *sorts)

    def assume(self, f):
        if f is True:
            return
        if f is False:
            raise Infeasible()
        if z3.is_and(f):
            for c in f.children():
                self.assume(c)
            return
        if z3.is_true(f):
            return
        self.pc.append(f)

    def oblige(self, name, goal, where=""):
        if self.dry:
            return
        self.obls.append(Obligation(name, list(self.pc), as_bool(goal), where))

    def truth_const(self, o):
        return z3.Bool(f"truth@{o.uid}")

    # ------------------------------------------------------------ branching
    def branch(self, c):
        if isinstance(c, bool):
            return c
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        d = self.dec
        if d.i < len(d.pre):
            r = d.pre[d.i]
        else:
            t = solver.feasible(self.pc, c)
            f = solver.feasible(self.pc, z3.Not(c))
            if t and f:
                d.work.append(d.taken + [False])
                r = True
            elif t:
                r = True
            elif f:
                r = False
            else:
                raise Infeasible()
            d.pre.append(r)
        d.i += 1
        d.taken.append(r)
        self.assume(c if r else Not(c))
        return r

    def choose(self, n):
        """n-way nondeterministic choice"""
        if n == 1:
            return 0
        d = self.dec
        if d.i < len(d.pre):
            r = d.pre[d.i]
        else:
            for k in range(n - 1, 0, -1):
                d.work.append(d.taken + [("c", k)])
            r = ("c", 0)
            d.pre.append(r)
        d.i += 1
        d.taken.append(r)
        return r[1]

    def explore(self, thunk):
        snap = self.snapshot()
        saved = self.dec
        work = [[]]
        cache = {}
        outs = []
        np_ = 0
        try:
            while work:
                pre = work.pop()
                np_ += 1
                if np_ > MAX_PATHS:
                    raise Unsupported("too many paths")
                self.restore(snap)
                self.dec = Dec(pre, work, cache)
                try:
                    v = thunk()
                    k = "fall"
                except ReturnEx as e:
                    k, v = "return", e.v
                except BreakEx:
                    k, v = "break", None
                except ContinueEx:
                    k, v = "continue", None
                except RaiseEx as e:
                    k, v = "raise", e
                except Infeasible:
                    continue
                outs.append(Outcome(k, v, self.snapshot()))
        finally:
            self.dec = saved
            self.restore(snap)
        return outs

    # ------------------------------------------------------------ heap
    def new(self, content):
        i = self.uid()
        self.heap[i] = content
        self.esrc.pop(i, None)
        return Ref(i)

    def deref(self, v):
        return deref_in(self.heap, v)

    def write(self, v, content):
        """replace the content of a mutable object in place"""
        if isinstance(v, Ref):
            if v.id in self.stale:
                raise Unsupported("in-place change of an object that may be shared: " + self.stale[v.id])
            self.heap[v.id] = content
            for b in self.views.get(v.id, ()):
                self.clobber(b, {v.id})
            self.clobber_views(v.id, {v.id})
            return
        if isinstance(v, ElemRef):
            r = _root(v)
            src = frozenset()
            if not isinstance(self.heap.get(r), ArrV):
                src = self.esrc.get(r)
                if src is None:
                    raise Unsupported("in-place change of a container element of unknown origin")
                if ("el", r) in self.stale:
                    raise Unsupported("in-place change of a container element that is shared")
            self.store_elem(v.base, v.idx, content)
            for b in src:
                if b != r and b in self.heap:
                    self.clobber(b)
            return
        if isinstance(v, Opaque):
            for b in v.alias:
                self.clobber(b)
            return
        raise Unsupported("write to immutable")

    def clobber_views(self, cid, seen):
        """values read earlier through a view of the cell are no longer known"""
        for w, bs in list(self.views.items()):
            if cid in bs and w not in seen:
                self.clobber(w, seen)

    def clobber(self, cid, seen=None):
        """an alias was written: forget the values in the cell"""
        seen = set() if seen is None else seen
        if cid in seen:
            return
        seen.add(cid)
        c = self.heap.get(cid)
        if isinstance(c, ArrV):
            self.heap[cid] = ArrV(c.shape, self.family("clob", c.dtype, c.ndim), c.dtype)
        elif isinstance(c, SeqV):
            self.heap[cid] = self.fresh(("seq", c.kind, c.ety), "clob", n=c.n)
        elif c is not None:
            self.heap[cid] = Opaque("clobbered")
        for b in self.views.get(cid, ()):
            self.clobber(b, seen)
        self.clobber_views(cid, seen)

    def store_elem(self, base, idx, val):
        """base[idx] = val for list/array/dict containers (idx already normalised)"""
        c = self.deref(base)
        if isinstance(c, SeqV):
            if c.kind == "tuple":
                raise RaiseEx("TypeError", True)
            if c.items is not None and isinstance(idx, int):
                items = list(c.items)
                items[idx] = val
                self.write(base, seq_items(items, c.kind))
                return
            old = c
            ety = join_ty(c.ety, ety_of(val))
            if c.kind == "arr" and c.ety == "float" and ety_of(val) == "int":
                val = to_fl(val)
                ety = "float"
            if ety == "opaque" and c.kind == "arr" and c.ety in ("float", "int", "bool"):
                val = self.coerce(val, c.ety)
                ety = c.ety
            new = SeqV(c.n, lambda i: merge(Eq(i, idx), val, old.get(i)), c.kind, ety)
            if ety == "int":
                new = self.with_mem(new)
            self.write(base, new)
            return
        if isinstance(c, ArrV):
            fam = self.as_grid(val, c.ndim - 1, c.dtype)
            self.write(base, ArrV(c.shape, lambda *i: merge(Eq(i[0], idx), fam(*i[1:]), c.get(*i)),
                                  c.dtype))
            return
        if isinstance(c, DictV):
            self.write(base, self.dict_store(c, idx, val))
            return
        if isinstance(c, Opaque):
            self.write(base, Opaque("mutated", c.alias))
            for b in c.alias:
                self.clobber(b)
            return
        raise Unsupported("store_elem")

    def dict_store(self, c, key, val):
        if isinstance(c, Opaque):
            return c
        if c.cd is not None and (isinstance(key, (int, str, bool)) or key is None):
            d = dict(c.cd)
            d[key] = val
            return DictV(cd=d)
        if is_int(key):
            vty = join_ty(c.vty, ety_of(val))
            if c.cd is not None:
                if not all(isinstance(x, int) for x in c.cd):
                    return Opaque("dict")
                items = dict(c.cd)

                def has0(k):
                    return Or(*[Eq(k, x) for x in items])

                def get0(k):
                    r = Opaque("nokey")
                    first = True
                    for x, v in items.items():
                        r = v if first else merge(Eq(k, x), v, r)
                        first = False
                    return r
                empty = not items
                for v in items.values():
                    vty = join_ty(vty, ety_of(v))
            else:
                has0, get0, empty = c.has, c.get, False
            if empty:
                return DictV(has=lambda k: Eq(k, key), get=lambda k: val, vty=vty)
            return DictV(has=lambda k: Or(Eq(k, key), has0(k)),
                         get=lambda k: merge(Eq(k, key), val, get0(k)), vty=vty)
        return Opaque("dict")

    def coerce(self, v, dt):
        if dt == "float":
            if isinstance(v, Opaque):
                return self.ffl("cv")
            return to_fl(v)
        if dt == "int":
            if is_int(v):
                return v
            if is_bool(v):
                return If(v, 1, 0)
            return self.fint("cv")
        if dt == "bool":
            if is_bool(v):
                return v
            return self.fbool("cv")
        return v

    def as_grid(self, val, nd, dtype):
        """value -> function of nd indices (broadcast), elements of dtype"""
        val = self.deref(val)
        if isinstance(val, ArrV):
            if val.ndim == nd:
                if val.dtype == dtype:
                    return val.get
                if dtype == "float" and val.dtype in ("int", "bool"):
                    return lambda *i: to_fl(val.get(*i))
                return self.family("st", dtype, nd)
            if val.ndim < nd:
                off = nd - val.ndim
                g = self.as_grid(val, val.ndim, dtype)
                return lambda *i: g(*i[off:])
            return self.family("st", dtype, nd)
        if isinstance(val, SeqV):
            if nd >= 1 and val.ety in ("int", "float", "bool"):
                if isinstance(val.n, int) and val.n == 1:
                    x = val.get(0)
                    return lambda *i: x if dtype != "float" else to_fl(x)
                if val.ety == dtype:
                    return lambda *i: val.get(i[-1])
                if dtype == "float":
                    return lambda *i: to_fl(val.get(i[-1]))
            return self.family("st", dtype, nd)
        if isinstance(val, Opaque):
            return self.family("st", dtype, nd)
        if val is None:
            return self.family("st", dtype, nd)
        x = self.coerce(val, dtype)
        return lambda *i: x

    # ------------------------------------------------------------ fresh values
    def family(self, nm, ty, arity):
        """fresh indexed family: function(*idx) -> value of type ty"""
        S = [I] * arity
        if ty == "int":
            if arity == 0:
                c = self.fint(nm)
                return lambda: c
            f = self.ffun(nm, *S, I)
            return lambda *i: f(*i)
        if ty == "bool":
            if arity == 0:
                c = self.fbool(nm)
                return lambda: c
            f = self.ffun(nm, *S, BS)
            return lambda *i: f(*i)
        if ty == "float":
            if arity == 0:
                c = self.ffl(nm)
                return lambda: c
            f = self.ffun(nm, *S, R)
            g = self.ffun(nm + ".nan", *S, BS)
            return lambda *i: Fl(f(*i), g(*i))
        if ty == "none":
            return lambda *i: None
        if ty == "str":
            f = self.family(nm, "int", arity)
            return lambda *i: StrS(f(*i))
        if ty in ("opaque", None):
            return lambda *i: Opaque(nm)
        if ty[0] == "opt":
            b = self.family(nm + ".isnone", "bool", arity)
            v = self.family(nm, ty[1], arity)
            return lambda *i: Opt(b(*i), v(*i))
        if ty[0] == "tuple":
            fs = [self.family(f"{nm}.{j}", t, arity) for j, t in enumerate(ty[1])]
            return lambda *i: tuple(f(*i) for f in fs)
        if ty[0] == "set":
            m = self.ffun(nm + ".in", *S, I, BS)
            c = self.family(nm + ".card", "int", arity)
            vs = bvars(arity)
            v, = bvars(1)
            w = self.family(nm + ".wit", "int", arity)
            # card axioms (0 and the witness of non-emptiness)
            q = lambda body, vv: ForAll(vv, body) if vv else body
            self.assume(q(c(*vs) >= 0, vs))
            self.assume(q(z3.Implies(c(*vs) > 0, m(*vs, w(*vs))), vs))
            self.assume(ForAll(vs + [v], z3.Implies(m(*vs, v), c(*vs) > 0)))
            return lambda *i: SetV(lambda x: m(*i, as_int(x)), c(*i))
        if ty[0] == "seq":
            kind, ety = ty[1], ty[2]
            n = self.family(nm + ".n", "int", arity)
            vs = bvars(arity)
            i0, v0 = bvars(2)
            q = lambda body, vv: ForAll(vv, body) if vv else body
            self.assume(q(n(*vs) >= 0, vs))
            g = self.family(nm + ".at", ety, arity + 1)
            if ety != "int":
                return lambda *i: SeqV(n(*i), lambda j: g(*i, j), kind, ety)
            m = self.ffun(nm + ".in", *S, I, BS)
            p = self.ffun(nm + ".pos", *S, I, I)
            d = self.family(nm + ".distinct", "bool", arity)
            gi = g(*vs, i0)
            self.assume(ForAll(vs + [i0], z3.Implies(z3.And(0 <= i0, i0 < n(*vs)),
                                                    z3.And(m(*vs, gi), p(*vs, gi) <= i0)), [gi]))
            self.assume(ForAll(vs + [v0], z3.Implies(m(*vs, v0), z3.And(
                0 <= p(*vs, v0), p(*vs, v0) < n(*vs), g(*vs, p(*vs, v0)) == v0)), [m(*vs, v0)]))
            self.assume(ForAll(vs + [i0], z3.Implies(z3.And(d(*vs), 0 <= i0, i0 < n(*vs)),
                                                    p(*vs, gi) == i0), [gi]))
            return lambda *i: SeqV(n(*i), lambda j: g(*i, as_int(j)), kind, "int",
                                   lambda x: m(*i, as_int(x)), lambda x: p(*i, as_int(x)), d(*i))
        if ty[0] == "arr":
            nd, dt = ty[1], ty[2]
            dims = [self.family(f"{nm}.d{j}", "int", arity) for j in range(nd)]
            vs = bvars(arity)
            for dm in dims:
                b = dm(*vs) >= 0
                self.assume(ForAll(vs, b) if vs else b)
            g = self.family(nm, dt, arity + nd)
            return lambda *i: ArrV([dm(*i) for dm in dims], lambda *j: g(*i, *j), dt)
        if ty[0] == "dict":
            h = self.ffun(nm + ".has", *S, I, BS)
            g = self.family(nm + ".val", ty[1], arity + 1)
            return lambda *i: DictV(has=lambda k: h(*i, as_int(k)), get=lambda k: g(*i, as_int(k)),
                                    vty=ty[1])
        return lambda *i: Opaque(nm)

    def fresh(self, ty, nm="v", n=None):
        """fresh value of a type; n: force sequence length"""
        if isinstance(ty, tuple) and ty[0] == "seq" and n is not None:
            v = self.family(nm, ty, 0)()
            self.assume(Eq(v.n, n))
            return SeqV(n, v.get, v.kind, v.ety, v.mem, v.pos, v.distinct)
        return self.family(nm, ty, 0)()

    def fsize(self, nm):
        v = self.fint(nm)
        self.assume(v >= 0)
        return v

    def fresh_arr(self, shape, dtype, nm="a"):
        return ArrV(shape, self.family(nm, dtype, len(shape)), dtype)

    def with_mem(self, s):
        """attach fresh mem/pos/distinct symbols, defined by axioms, to an int sequence"""
        m = self.ffun("sq.in", I, BS)
        p = self.ffun("sq.pos", I, I)
        d = self.fbool("sq.distinct")
        i, v = bvars(2)
        gi = s.get(i)
        self.assume(ForAll([i], z3.Implies(z3.And(0 <= i, i < s.n), z3.And(m(gi), p(gi) <= i))))
        self.assume(ForAll([v], z3.Implies(m(v), And(0 <= p(v), p(v) < s.n, Eq(s.get(p(v)), v))),
                           [m(v)]))
        i2, j2 = bvars(2)
        full = ForAll([i2, j2], Implies(And(Le(0, i2), Lt(i2, j2), Lt(j2, s.n)),
                                        Not(Eq(s.get(i2), s.get(j2)))))
        self.assume(d == as_bool(full))
        self.assume(ForAll([i], z3.Implies(z3.And(d, 0 <= i, i < s.n), p(gi) == i)))
        return SeqV(s.n, s.get, s.kind, s.ety, lambda x: m(as_int(x)), lambda x: p(as_int(x)), d,
                    s.items, s.pred, s.src)

    def card(self, s):
        if s.card is not None:
            return s.card
        c = self.fint("card")
        v, u = bvars(2)
        w, w2 = self.fint("wit"), self.fint("wit")
        self.assume(c >= 0)
        self.assume(Implies(c > 0, s.mem(w)))
        self.assume(ForAll([v], Implies(s.mem(v), c > 0)))
        self.assume(Implies(c >= 2, And(s.mem(w), s.mem(w2), w != w2)))
        self.assume(Implies(c == 1, ForAll([v], Implies(s.mem(v), v == w))))
        return c

    def set_to_seq(self, s, kind="list"):
        """enumerate a set in an arbitrary order"""
        if s.items is not None and len(s.items) <= 1:
            return seq_items(s.items, kind)
        v = self.fresh(("seq", kind, "int"), "enum")
        x, = bvars(1)
        self.assume(v.distinct)
        self.assume(ForAll([x], v.mem(x) == as_bool(s.mem(x)), [v.mem(x)]))
        sm = s.mem(x)
        if is_term(sm) and not z3.is_eq(sm):
            self.assume(ForAll([x], v.mem(x) == as_bool(sm)))
        self.assume(Eq(v.n, self.card(s)))
        return SeqV(v.n, v.get, kind, "int", s.mem, v.pos, True)

    # ------------------------------------------------------------ functions
    def call_function(self, fi, args, kwargs, self_val=None, owner_env=None):
        c = self.contracts.get(fi.qual)
        if c is not None and not self.dry_contract(c) and c.applies(fi):
            r = self.apply_contract(c, fi, args, kwargs, self_val)
            if r is not NotImplemented:
                return r
        if fi.qual in self.inline_deny:
            return Opaque(fi.name)
        return self.inline(fi, args, kwargs, self_val, owner_env)

    def dry_contract(self, c):
        return False

    def bind(self, fi, args, kwargs, self_val):
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        decs = fi.decorators() if isinstance(fi.node, ast.FunctionDef) else []
        if self_val is not None and "staticmethod" not in decs:
            args = [self_val] + args
        if len(args) > len(names):
            if a.vararg:
                env[a.vararg.arg] = tuple(args[len(names):])
                args = args[: len(names)]
            else:
                raise RaiseEx("TypeError", True)
        elif a.vararg:
            env[a.vararg.arg] = ()
        for n, v in zip(names, args):
            env[n] = v
        kw = dict(kwargs)
        for n in names[len(args):] + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                env[n] = kw.pop(n)
        for n in list(kw):
            if n in names:
                raise RaiseEx("TypeError", True)
        if kw:
            if a.kwarg:
                env[a.kwarg.arg] = self.new(DictV(cd=kw))
                kw = {}
            else:
                raise RaiseEx("TypeError", True)
        elif a.kwarg:
            env[a.kwarg.arg] = self.new(DictV(cd={}))
        defs = a.defaults
        for n, d in zip(names[len(names) - len(defs):], defs):
            if n not in env:
                env[n] = self.eval_default(fi, d)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = self.eval_default(fi, d)
        for n in names:
            if n not in env:
                raise RaiseEx("TypeError", True)
        return env

    def eval_default(self, fi, d):
        self.frames.append({"__fi__": fi})
        try:
            return self.eval(d)
        finally:
            self.frames.pop()

    def inline(self, fi, args, kwargs, self_val=None, owner_env=None):
        if self.depth > 12:
            raise Unsupported("inline depth (recursion?) " + fi.qual)
        env = self.bind(fi, args, kwargs, self_val)
        env["__fi__"] = fi
        if owner_env is not None:
            env["__closure__"] = owner_env
        self.inlined.add(fi.qual)
        self.frames.append(env)
        depth = len(self.frames)
        self.depth += 1
        try:
            if isinstance(fi.node, ast.Lambda):
                return self.eval(fi.node.body)
            try:
                self.block(fi.node.body)
                r = None
            except ReturnEx as e:
                r = e.v
            return r
        finally:
            self.depth -= 1
            del self.frames[depth - 1:]

    def apply_contract(self, c, fi, args, kwargs, self_val):
        env = self.bind(fi, args, kwargs, self_val)
        ctx = CallCtx(self, env, fi)
        try:
            pres = list(c.pre(ctx) or [])
        except (AttributeError, KeyError, TypeError, IndexError, Unsupported):
            return NotImplemented       # arguments outside the contract: the body itself is executed
        if not self.dry and not all(self.holds(self.pc, f) for _, f in pres):
            return NotImplemented
        self.used_contracts.add(c.qual)
        for nm, f in pres:
            self.oblige(f"pre of {fi.qual}: {nm}", f, fi.qual)
            self.assume(f)
        # exceptional outcomes
        exc = c.raises(ctx)
        if exc:
            k = self.choose(1 + len(exc))
            if k > 0:
                et, cond = exc[k - 1]
                self.assume(cond)
                raise RaiseEx(et)
        old = self.snapshot()
        ctx.old = SV(dict(env), dict(old.heap))
        res = c.result(ctx)
        ctx.new = SV(env, self.heap)
        for nm, f in c.post(ctx, res) or []:
            self.assume(f)
        return res

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} line {s.lineno}")
        return m(s)

    def s_Pass(self, s):
        pass

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value)

    def s_Return(self, s):
        raise ReturnEx(None if s.value is None else self.eval(s.value))

    def s_Break(self, s):
        raise BreakEx()

    def s_Continue(self, s):
        raise ContinueEx()

    def s_Raise(self, s):
        et = "Exception"
        if s.exc is not None:
            x = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            if isinstance(x, ast.Name):
                et = x.id
        raise RaiseEx(et)

    def s_Import(self, s):
        for a in s.names:
            self.env[(a.asname or a.name).split(".")[0]] = ExtV(a.name if a.asname else a.name.split(".")[0])

    def s_ImportFrom(self, s):
        for a in s.names:
            self.env[a.asname or a.name] = ExtV((s.module or "") + "." + a.name)

    def s_Assert(self, s):
        if not self.branch(self.truth(self.eval(s.test))):
            raise RaiseEx("AssertionError")

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value)
                c = self.deref(b)
                if isinstance(c, SeqV) and not isinstance(t.slice, ast.Slice):
                    self.models.list_pop(self, b, self.eval(t.slice))
                elif isinstance(c, Opaque):
                    self.write(b, Opaque("del", c.alias))
                else:
                    raise Unsupported("del")
            else:
                raise Unsupported("del")

    def s_FunctionDef(self, s):
        fi0 = self.env.get("__fi__")
        fi = FuncInfo(s, fi0.module, None, s.name)
        self.env[s.name] = FnV(fi, env=self.env)

    def s_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def s_AugAssign(self, s):
        load = ast.copy_location(_as_load(s.target), s.target)
        cur = self.eval(load)
        rhs = self.eval(s.value)
        c = self.deref(cur)
        r = self.deref(rhs)
        if isinstance(c, SeqV) and c.kind == "list" and isinstance(s.op, ast.Add):
            self.models.list_extend(self, cur, rhs)
            return
        if isinstance(c, SetV) and isinstance(cur, (Ref, ElemRef)):
            self.write(cur, self.deref(self.models.binop(self, s.op, c, r)))
            return
        if isinstance(c, (ArrV, SeqV)) and isinstance(cur, (Ref, ElemRef)):
            res = self.deref(self.models.binop(self, s.op, c, r))
            if isinstance(c, ArrV):
                g = self.as_grid(res, c.ndim, c.dtype)
                self.write(cur, ArrV(c.shape, g, c.dtype))
            else:
                g = self.as_grid(res, 1, c.ety)
                n = SeqV(c.n, g, c.kind, c.ety)
                self.write(cur, self.with_mem(n) if c.ety == "int" else n)
            return
        if isinstance(c, Opaque) and isinstance(cur, (Ref, ElemRef)):
            self.write(cur, Opaque("aug", c.alias))
            return
        self.assign(s.target, self.models.binop(self, s.op, c, r))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            c = self.deref(o)
            if isinstance(c, ObjV):
                a = dict(c.attrs)
                a[t.attr] = v
                self.write(o, ObjV(c.cls, a, c.havoced))
            elif isinstance(c, Opaque):
                pass
            else:
                raise Unsupported("attribute store")
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value)
            self.models.store_sub(self, base, t.slice, v)
        elif isinstance(t, ast.Starred):
            raise Unsupported("starred target")
        else:
            raise Unsupported("target")

    def unpack(self, elts, v):
        c = self.deref(v)
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if isinstance(c, tuple):
            vals = list(c)
        elif isinstance(c, SeqV) and c.items is not None:
            vals = list(c.items)
            vals = [self.elem_ref(v, i) for i in range(len(vals))]
        elif isinstance(c, SeqV):
            if star:
                raise Unsupported("star unpack symbolic")
            if not self.branch(Eq(c.n, n)):
                raise RaiseEx("ValueError", True)
            vals = [self.elem_ref(v, i) for i in range(n)]
        elif isinstance(c, ArrV):
            if not self.branch(Eq(c.shape[0], n)):
                raise RaiseEx("ValueError", True)
            vals = [self.elem_ref(v, i) for i in range(n)]
        elif isinstance(c, Opaque):
            vals = [Opaque(f"{c.tag}.{i}", c.alias) for i in range(n)]
            star = []
            for e, x in zip(elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x)
            return
        else:
            raise Unsupported("unpack")
        if star:
            i = star[0]
            k = len(vals) - (n - 1)
            if k < 0:
                raise RaiseEx("ValueError", True)
            for e, x in zip(elts[:i], vals[:i]):
                self.assign(e, x)
            self.assign(elts[i].value, self.new(seq_items([self.deref(x) for x in vals[i:i + k]])))
            for e, x in zip(elts[i + 1:], vals[i + k:]):
                self.assign(e, x)
            return
        if len(vals) != n:
            raise RaiseEx("ValueError", True)
        for e, x in zip(elts, vals):
            self.assign(e, x)

    def elem_ref(self, container, idx):
        """reference to container[idx]; plain value when the element is immutable"""
        c = self.deref(container)
        e = elem_value(c, idx)
        if isinstance(e, (Ref, ElemRef)):
            return e
        if isinstance(e, (SeqV, SetV, ArrV, DictV)) and isinstance(container, (Ref, ElemRef)) and not (
                isinstance(e, SeqV) and e.kind in ("tuple", "range")):
            return ElemRef(container, idx)
        return e

    def freeze_elems(self, base_id):
        """a slot of the container is rebound: outstanding element references become snapshots"""
        for f in self.frames:
            for k, v in list(f.items()):
                if isinstance(v, ElemRef) and _root(v) == base_id:
                    r = self.new(self.deref(v))
                    self.stale[r.id] = "element of a container whose slot was rebound"
                    f[k] = r

    def s_If(self, s):
        c = self.truth(self.eval(s.test))
        if self.branch(c):
            self.block(s.body)
        else:
            self.block(s.orelse)

    def s_Try(self, s):
        try:
            self.block(s.body)
        except RaiseEx as e:
            for h in s.handlers:
                names = _exc_names(h.type)
                if names is None or e.etype in names or "Exception" in names:
                    if h.name:
                        self.env[h.name] = Opaque("exc")
                    self.block(h.body)
                    break
            else:
                raise
        else:
            self.block(s.orelse)
        if s.finalbody:
            self.block(s.finalbody)

    def s_With(self, s):
        for it in s.items:
            v = self.eval(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, Opaque("with"))
        self.block(s.body)

    def s_Global(self, s):
        raise Unsupported("global")

    def s_Nonlocal(self, s):
        raise Unsupported("nonlocal")

    # ------------------------------------------------------------ loops
    def s_For(self, s):
        it = self.models.iterate(self, self.eval(s.iter))
        if it.items is not None and len(it.items) <= 8:
            broke = False
            for x in it.items:
                self.assign(s.target, x)
                try:
                    self.block(s.body)
                except ContinueEx:
                    continue
                except BreakEx:
                    broke = True
                    break
            if not broke:
                self.block(s.orelse)
            return
        self.loop(s, it)

    def s_While(self, s):
        self.loop(s, None)

    def loop(self, s, it):
        d = self.dec
        key = (id(s), self.ctr, tuple(d.taken), len(self.frames), self.dry)
        hit = d.cache.get(key)
        if hit is None:
            o0 = len(self.obls)
            res = self.analyse_loop(s, it)
            new_obls = self.obls[o0:]
            del self.obls[o0:]
            d.cache[key] = hit = (res, new_obls)
        res, new_obls = hit
        self.obls.extend(new_obls)
        if not res:
            raise Infeasible()
        k = self.choose(len(res))
        kind, val, snap = res[k]
        fr = self.frames
        self.restore(snap)
        if kind == "return":
            raise ReturnEx(val)
        if kind == "raise":
            raise val
        if kind == "normal" and s.orelse:
            self.block(s.orelse)

    def run_body(self, s, it, k):
        if it is not None:
            self.assign(s.target, it.elem(self, k))
            self.block(s.body)
        else:
            # evaluated by caller: cond already assumed
            self.block(s.body)

    def loop_thunk(self, s, it, k):
        def thunk():
            if it is not None:
                self.assign(s.target, it.elem(self, k))
                self.block(s.body)
            else:
                c = self.truth(self.eval(s.test))
                if not self.branch(c):
                    raise LoopExit()
                self.block(s.body)
        return thunk

    def explore_body(self, s, it, k):
        """outcomes; while-loops: kind 'exit' when the condition is false"""
        base = self.loop_thunk(s, it, k)

        def thunk():
            try:
                base()
            except LoopExit:
                return "exit"
        outs = self.explore(thunk)
        for o in outs:
            if o.kind == "fall" and o.val == "exit":
                o.kind = "exit"
        return outs

    def diff(self, head, end):
        """locations whose content differs between two snapshots"""
        mods = set()
        he, ee = head.frames[-1], end.frames[-1]
        for k in set(he) | set(ee):
            if k.startswith("__"):
                continue
            if k not in he or k not in ee:
                mods.add(("var", k))
            elif not same(he[k], ee[k]):
                mods.add(("var", k))
        for cid, c in head.heap.items():
            c2 = end.heap.get(cid)
            if c2 is c:
                continue
            if isinstance(c, ObjV) and isinstance(c2, ObjV):
                for a in set(c.attrs) | set(c2.attrs):
                    if a not in c.attrs or a not in c2.attrs or not same(c.attrs[a], c2.attrs[a]):
                        mods.add(("attr", cid, a))
            else:
                mods.add(("cell", cid))
        return mods

    def loc_ty(self, snap, loc):
        if loc[0] == "var":
            if loc[1] not in snap.frames[-1]:
                return None
            v = snap.frames[-1][loc[1]]
        elif loc[0] == "attr":
            o = snap.heap.get(loc[1])
            if o is None or loc[2] not in o.attrs:
                return None
            v = o.attrs[loc[2]]
        else:
            v = snap.heap[loc[1]]
        if isinstance(v, (FnV, ClsV, ExtV, MethV, SuperV)):
            return "opaque"
        vv = deref_in(snap.heap, v)
        if isinstance(vv, ObjV):
            return "opaque"
        if isinstance(vv, DictV):
            if vv.cd is not None:
                t = None
                for x in vv.cd.values():
                    t = join_ty(t, ety_of(deref_in(snap.heap, x)))
                if all(isinstance(x, int) for x in vv.cd):
                    return ("dict", t)
                return "opaque"
            return ("dict", vv.vty)
        return ety_of(vv)

    def loc_shape(self, snap, loc):
        sv = SV(snap.frames[-1], snap.heap)
        try:
            v = sv.loc(loc)
        except KeyError:
            return None
        if isinstance(v, ArrV):
            return v.shape
        return None

    def havoc(self, mods, tys, shapes, undefined):
        for loc in sorted(mods, key=str):
            ty = tys.get(loc)
            nm = loc[1] if loc[0] == "var" else (loc[2] if loc[0] == "attr" else f"cell{loc[1]}")
            sh = shapes.get(loc)
            if loc in undefined and ty is not None:
                # not bound at loop entry: readable only after the first assignment;
                # reading it earlier raises NameError, which ends the path
                pass
            if isinstance(ty, tuple) and ty[0] == "arr" and sh is not None:
                v = self.fresh_arr([self.fsize(nm + ".d") if d is None else d for d in sh], ty[2], nm)
                if ty[2] == "int" and len(sh) == 2 and isinstance(sh[1], int) and sh[1] == 2:
                    v = self.models.with_rows(self, v)
            else:
                v = self.fresh(ty, nm)
            mutable = isinstance(v, (SetV, ArrV, DictV)) or (
                isinstance(v, SeqV) and v.kind in ("list", "arr"))
            if loc[0] == "cell":
                self.heap[loc[1]] = v
            else:
                if mutable:
                    v = self.new(v)
                if loc[0] == "var":
                    self.env[loc[1]] = v
                else:
                    o = self.heap[loc[1]]
                    a = dict(o.attrs)
                    a[loc[2]] = v
                    self.heap[loc[1]] = ObjV(o.cls, a, o.havoced)

    def analyse_loop(self, s, it):
        """-> list of (kind, value, snapshot) continuations after the loop"""
        self.loops += 1
        entry = self.snapshot()
        k = self.fint("k")
        n = it.n if it is not None else None
        base = self.snapshot()

        # ---- 1. modified locations (fixpoint of dry runs)
        mods, tys, shapes, undefined = set(), {}, {}, set()
        head_dry = None
        was_dry = self.dry
        ends_dry = []
        self.dry = True
        try:
            for _ in range(12):
                self.restore(base)
                self.havoc(mods, tys, shapes, undefined)
                self.assume(k >= 0)
                head = self.snapshot()
                if n is not None:
                    self.assume(Lt(k, n))
                outs = self.explore_body(s, it, k)
                new = set()
                ntys = dict(tys)
                for o in outs:
                    if o.kind not in ("fall", "continue"):
                        continue
                    dm = self.diff(head, o.snap)
                    for loc in dm:
                        if loc[0] == "cell" and loc[1] not in entry.heap:
                            continue
                        if loc[0] == "attr" and loc[1] not in entry.heap:
                            continue
                        new.add(loc)
                    for loc in new | mods:
                        t = self.loc_ty(o.snap, loc)
                        if t is None:
                            continue
                        e = self.loc_ty(entry, loc)
                        if loc not in ntys:
                            ntys[loc] = join_ty(e, t)
                            if e is None:
                                undefined.add(loc)
                        else:
                            ntys[loc] = join_ty(ntys[loc], t)
                nshapes = {}
                for loc in new | mods:
                    se = self.loc_shape(entry, loc)
                    if se is None:
                        continue
                    pat = [d is not None for d in shapes[loc]] if loc in shapes else (
                        [True] * len(se) if loc not in mods else None)
                    for o in outs:
                        if pat is not None and o.kind in ("fall", "continue"):
                            so = self.loc_shape(o.snap, loc)
                            if so is None or len(so) != len(se):
                                pat = None
                            else:
                                pat = [p and _same_term(a, b) for p, a, b in zip(pat, se, so)]
                    if pat is not None:
                        nshapes[loc] = tuple(d if p else None for p, d in zip(pat, se))
                grown = self.join_esrc(base, outs)
                if not grown and new <= mods and ntys == tys and set(shapes) == set(nshapes) and all(
                        [d is None for d in shapes[x]] == [d is None for d in nshapes[x]] for x in shapes):
                    ends_dry, head_dry = outs, head
                    break
                mods |= new
                tys = ntys
                shapes = nshapes
            else:
                raise Unsupported("loop modification analysis did not converge")
        finally:
            self.dry = was_dry

        # ---- 2. havocked head
        self.restore(base)
        self.havoc(mods, tys, shapes, undefined)
        self.assume(k >= 0)
        head0 = self.snapshot()

        if self.dry:
            cands = []
        else:
            cands = self.candidates(s, it, entry, head0, mods, tys, k, n, ends_dry)

        base.esrc = dict(base.esrc)

        def at(c, snap, kk):
            try:
                return c.f(SV(snap.frames[-1], snap.heap, kk))
            except (KeyError, AttributeError, TypeError, IndexError, Unsupported, z3.Z3Exception) as e:
                return None

        # ---- 3. initiation
        live = []
        for c in cands:
            f = at(c, entry, 0)
            h = at(c, head0, k)
            if f is None or h is None:
                if DEBUG_DROP and DEBUG_DROP in c.name:
                    print("NOEVAL", c.name, f is None, h is None)
                continue
            if c.assume_entry or self.holds(entry.pc, f):
                live.append(c)
            elif DEBUG_DROP and DEBUG_DROP in c.name:
                print("NOINIT", c.name, str(f)[:500])
        # ---- 4. consecution (Houdini)
        rounds = 0
        while True:
            if self.dry:
                outs, hsnap = ends_dry, head_dry
                break
            rounds += 1
            self.restore(head0)
            o0 = len(self.obls)
            try:
                for c in live:
                    self.assume(at(c, head0, k))
                hsnap = self.snapshot()
                if n is not None:
                    self.assume(Lt(k, n))
                outs = self.explore_body(s, it, k)
            except Infeasible:
                outs = []
                hsnap = self.snapshot()
            bad = set()
            if not self.dry:
                for o in outs:
                    if o.kind not in ("fall", "continue"):
                        continue
                    for c in live:
                        if c in bad:
                            continue
                        f = at(c, o.snap, k + 1)
                        if f is None or not self.holds(o.pc, f):
                            if DEBUG_DROP and DEBUG_DROP in c.name: print("DROP", c.name, str(f)[:500])
                            bad.add(c)
            extra = set()
            for o in outs:
                if o.kind in ("fall", "continue"):
                    for loc in self.diff(hsnap, o.snap):
                        if loc not in mods and not (loc[0] in ("cell", "attr") and loc[1] not in entry.heap):
                            extra.add(loc)
            if extra:
                raise Unsupported(f"loop modifies {extra} beyond the dry run")
            if not bad:
                break
            del self.obls[o0:]
            live = [c for c in live if c not in bad]
            if rounds > 40:
                raise Unsupported("houdini")
        if not self.dry:
            self.inv_log.append((getattr(s, "lineno", 0), [c.name for c in live],
                                 [c.name for c in cands if c not in live]))

        # ---- 5. continuations
        if any(any(e in ("warn", "loop") for e in o.snap.events[len(hsnap.events):]) for o in outs if o.kind in ("fall", "continue")):
            # finished iterations may have had events: how many is not known
            hsnap.events = hsnap.events + ("loop",)
            for o in outs:
                o.snap.events = ("loop",) + tuple(o.snap.events)
        res = []
        for o in outs:
            if o.kind in ("break", "return", "raise"):
                res.append((o.kind, o.val, o.snap))
            elif o.kind == "exit":
                res.append(("normal", None, o.snap))
        if n is not None:
            self.restore(hsnap)
            try:
                self.assume(Le(k, n))
                self.assume(Le(n, k))
                # the loop variable keeps its last value; unbound if no iteration ran
                res.append(("normal", None, self.snapshot()))
            except Infeasible:
                pass
        self.restore(base)
        # entry-only facts are in every pc since base.pc is a prefix
        return res

    def join_esrc(self, base, outs):
        """element origins after any number of iterations, joined into base; True if it grew"""
        grown = False
        for cid in list(base.esrc):
            for o in outs:
                if o.kind not in ("fall", "continue"):
                    continue
                x = o.snap.esrc.get(cid)
                if x is None:
                    base.esrc.pop(cid, None)
                    grown = True
                    break
                x = frozenset(b for b in x if b in base.heap)
                if not x <= base.esrc[cid]:
                    # an object from before the loop is stored by iterations: elements may be the same object
                    base.esrc.pop(cid, None)
                    grown = True
                    break
        return grown

    def holds(self, pc, f):
        solver.STATS["houdini_queries"] += 1
        return solver.prove(pc, f, ms=self.houd_ms * 5, cvc5=False, rl=self.houd_rl).status == "proved"

    # ------------------------------------------------------------ candidates
    def candidates(self, s, it, entry, head, mods, tys, k, n, ends):
        out = []
        ev = SV(entry.frames[-1], entry.heap)
        hv = SV(head.frames[-1], head.heap, k)

        def eval_at(loc):
            return lambda sv: sv.loc(loc)

        def add(name, f, assume_entry=False):
            out.append(Cand(name, f, assume_entry))

        def guarded(name, f):
            add(name, f)
            if n is not None:
                add(name + " while iterating", lambda sv, f=f: Implies(Lt(sv.k, n), f(sv)))

        sizes = list(self.sizes)
        seqs, arrs, sets_, ints, opts, dicts = [], [], [], [], [], []
        for loc in sorted(mods, key=str):
            if loc[0] == "var" and self.temporary(s, loc[1]):
                continue
            try:
                v = hv.loc(loc)
            except KeyError:
                continue
            nm = str(loc[1] if loc[0] == "var" else loc[-1])
            if isinstance(v, SeqV):
                seqs.append((nm, loc, v))
            elif isinstance(v, ArrV):
                arrs.append((nm, loc, v))
            elif isinstance(v, SetV):
                sets_.append((nm, loc, v))
            elif isinstance(v, DictV):
                dicts.append((nm, loc, v))
            elif isinstance(v, Opt):
                opts.append((nm, loc, v))
            elif is_int(v):
                ints.append((nm, loc, v))

        def entry_val(loc):
            try:
                return ev.loc(loc)
            except KeyError:
                return None

        iseqs = [(a, b, c) for a, b, c in seqs if c.ety == "int"]
        for nm, loc, v in seqs:
            e = entry_val(loc)
            if isinstance(e, SeqV):
                n0 = e.n
                add(f"len({nm})==len0", lambda sv, l=loc, n0=n0: Eq(sv.loc(l).n, n0))
                add(f"len({nm})==len0+k", lambda sv, l=loc, n0=n0: Eq(sv.loc(l).n, n0 + sv.k))
                add(f"len({nm})<=len0+k", lambda sv, l=loc, n0=n0: Le(sv.loc(l).n, n0 + sv.k))
                guarded(f"len({nm})==len0-k", lambda sv, l=loc, n0=n0: Eq(sv.loc(l).n, n0 - sv.k))
        for nm, loc, v in iseqs:
            e = entry_val(loc)
            guarded(f"distinct({nm})", lambda sv, l=loc: sv.loc(l).is_distinct())
            for sz in sizes:
                add(f"{nm} within 0..{sz}", lambda sv, l=loc, sz=sz: _within(sv.loc(l), sz))
            if isinstance(e, SeqV) and e.ety in ("int", None) and not (isinstance(e.n, int) and e.n == 0):
                add(f"{nm} subset of entry", lambda sv, l=loc, e=e: _subset(sv.loc(l), e))
            src = getattr(it, "seq", None)
            if isinstance(e, SeqV) and src is not None and src.pos is not None and src.mem is not None:
                def pref(sv, l=loc, e=e, src=src):
                    w, = bvars(1)
                    new = And(src.has(w), Lt(src.pos(w), sv.k))
                    if not (isinstance(e.n, int) and e.n == 0):
                        new = Or(new, e.has(w))
                    return ForAll([w], Implies(sv.loc(l).has(w), new))
                add(f"{nm} within the visited part", pref)
        for i in range(len(iseqs)):
            for j in range(i + 1, len(iseqs)):
                a, b = iseqs[i], iseqs[j]
                guarded(f"disjoint({a[0]},{b[0]})",
                        lambda sv, a=a[1], b=b[1]: _disjoint(sv.loc(a), sv.loc(b)))
                for sz in sizes:
                    add(f"{a[0]}+{b[0]} cover 0..{sz}",
                        lambda sv, a=a[1], b=b[1], sz=sz: _cover(sv.loc(a), sv.loc(b), sz))
                    add(f"len({a[0]})+len({b[0]})=={sz}",
                        lambda sv, a=a[1], b=b[1], sz=sz: Eq(sv.loc(a).n + sv.loc(b).n, sz))
        for nm, loc, v in opts:
            add(f"{nm} is None", lambda sv, l=loc: _isnone(sv.loc(l)))
        for nm, loc, v in arrs:
            e = entry_val(loc)
            if isinstance(e, ArrV) and e.ndim == v.ndim:
                for d in range(v.ndim):
                    if not _same_term(v.shape[d], e.shape[d]):
                        add(f"shape({nm})[{d}] fixed",
                            lambda sv, l=loc, d=d, e=e: Eq(sv.loc(l).shape[d], e.shape[d]))
        targets = {t.id for x in ast.walk(s) if isinstance(x, (ast.For, ast.comprehension))
                   for t in ast.walk(x.target) if isinstance(t, ast.Name)}
        for nm, loc, v in ints:
            e = entry_val(loc)
            if is_int(e) and not (loc[0] == "var" and loc[1] in targets):
                add(f"{nm}>=entry", lambda sv, l=loc, e=e: Le(e, sv.loc(l)))
                add(f"{nm}==entry+k", lambda sv, l=loc, e=e: Eq(sv.loc(l), e + sv.k))
                for sz in sizes:
                    add(f"{nm}<={sz}", lambda sv, l=loc, sz=sz: Le(sv.loc(l), sz))
        # path summary of search loops: every finished iteration took a fall-through path
        if n is not None and any(o.kind in ("break", "return", "raise") for o in ends):
            f = self.path_summary(it, entry, ends, mods, k, n)
            if f is not None:
                add("finished iterations took the fall-through path", f)
        if self.hints is not None:
            L = LoopCtx(self, s, it, entry, head, ev, hv, mods, k, n, seqs, arrs, sets_, ints, opts, dicts)
            for nm, f in (self.hints.loop_candidates(L) or []):
                add("*" + nm, f)
        return out

    def temporary(self, s, name):
        """assigned in every iteration before any use and not used after the loop: no invariant needed"""
        fi = self.env.get("__fi__")
        if fi is None or not isinstance(s, ast.For):
            return False
        top = set()
        for st in s.body:
            if isinstance(st, ast.Assign):
                top |= {id(t) for t in st.targets if isinstance(t, ast.Name)}
        first = after = None
        for x in ast.walk(fi.node):
            if isinstance(x, ast.Name) and x.id == name:
                p = (x.lineno, x.col_offset)
                inside = s.lineno <= x.lineno <= s.end_lineno
                # the target of an assignment is bound after its right-hand side is read
                if inside:
                    key = (p, x)
                    if first is None or p < first[0]:
                        first = key
                elif x.lineno > s.end_lineno and (after is None or p < after[0]):
                    after = (p, x)
        if first is None or id(first[1]) not in top:
            return False
        st = next(b for b in s.body if isinstance(b, ast.Assign) and any(t is first[1] for t in b.targets))
        if any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(st.value)):
            return False
        return after is None or isinstance(after[1].ctx, ast.Store)

    def path_summary(self, it, entry, ends, mods, k, n):
        base = {f.get_id() for f in entry.pc}
        banned = None
        disj = []
        # symbols allowed: those occurring before the loop body ran, plus k
        allowed = set(["INF"])
        for f in entry.pc:
            allowed |= solver.symbols(f)
        kname = k.decl().name()
        allowed.add(kname)
        lim = k.decl().name().split("!")[-1]
        for o in ends:
            if o.kind not in ("fall", "continue"):
                continue
            lits = []
            for f in o.pc:
                if f.get_id() in base:
                    continue
                if _only_old(f, int(lim)):
                    lits.append(f)
            disj.append(And(*lits) if lits else True)
        D = Or(*disj) if disj else False
        if D is True or not is_term(D):
            return None
        if kname not in solver.symbols(D):
            return None

        def f(sv):
            q, = bvars(1)
            body = z3.substitute(D, (k, q))
            return ForAll([q], Implies(And(Le(0, q), Lt(q, sv.k)), body))
        return f

    # ------------------------------------------------------------ expressions
    def eval(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} line {getattr(e, 'lineno', 0)}")
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if v is Ellipsis:
            return ExtV("Ellipsis")
        if isinstance(v, (bytes, complex)):
            return Opaque("const")
        return v

    def e_Name(self, e):
        return self.lookup(e.id)

    def lookup(self, name):
        env = self.env
        while env is not None:
            if name in env:
                return env[name]
            nxt = env.get("__closure__")
            if nxt is None:
                break
            env = nxt
        fi = self.env.get("__fi__")
        if fi is not None:
            g = fi.module.resolve(name)
            if g is not None:
                return self.lift(g, fi.module)
        if name in self.models.BUILTINS:
            return ExtV("builtins." + name)
        raise RaiseEx("NameError", True)

    def lift(self, g, module):
        if isinstance(g, FuncInfo):
            return FnV(g)
        if isinstance(g, ClassInfo):
            return ClsV(g)
        if isinstance(g, External):
            return ExtV(g.qual)
        if isinstance(g, ModuleInfo):
            return g
        if isinstance(g, tuple) and g[0] == "assign":
            return self.eval(g[1])
        raise Unsupported("lift")

    def e_Attribute(self, e):
        return self.getattr(self.eval(e.value), e.attr)

    def getattr(self, o, name):
        if isinstance(o, ExtV):
            return self.models.ext_attr(self, o.qual + "." + name)
        if isinstance(o, ModuleInfo):
            g = o.resolve(name)
            if g is None:
                sub = self.prog.module(o.name + "." + name)
                if sub is not None:
                    return sub
                raise RaiseEx("AttributeError", True)
            return self.lift(g, o)
        if isinstance(o, SuperV):
            so = self.deref(o.self_val)
            m = so.cls.find_after(self.prog, o.owner, name) if so.cls else None
            if m is None:
                return Opaque("super." + name)
            return FnV(m, self_val=o.self_val)
        if isinstance(o, ClsV):
            m = o.info.find(self.prog, name)
            if m is not None:
                return FnV(m)
            if name in o.info.attrs:
                return self.eval(o.info.attrs[name])
            return Opaque(name)
        c = self.deref(o)
        if isinstance(c, ObjV):
            if name in c.attrs:
                return c.attrs[name]
            if "__ext__" in c.attrs:
                return self.models.ext_attr_of(self, o, c, name)
            if c.cls is not None:
                m = c.cls.find(self.prog, name)
                if m is not None:
                    if "property" in m.decorators():
                        return self.call_function(m, [], {}, o)
                    return FnV(m, self_val=o)
                for k in c.cls.mro(self.prog):
                    if name in k.attrs:
                        return self.eval(k.attrs[name])
            if c.havoced:
                v = Opaque("self." + name)
                a = dict(c.attrs)
                a[name] = v
                self.heap[o.id] = ObjV(c.cls, a, True)
                return v
            raise RaiseEx("AttributeError", True)
        if isinstance(c, Opaque):
            return Opaque(c.tag + "." + name, c.alias) if False else MethV(o, name)
        if isinstance(c, Opt):
            if self.branch(c.isnone):
                raise RaiseEx("AttributeError", True)
            return self.getattr(c.val, name)
        if c is None:
            raise RaiseEx("AttributeError", True)
        return self.models.attr(self, o, c, name)

    def e_Call(self, e):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            fi = self.env["__fi__"]
            first = fi.node.args.args[0].arg
            return SuperV(self.env[first], fi.cls)
        f = self.eval(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.deref(self.eval(a.value))
                if isinstance(v, tuple):
                    args.extend(v)
                elif isinstance(v, SeqV) and v.items is not None:
                    args.extend(v.items)
                else:
                    args.append(("*", v))
            else:
                args.append(self.eval(a))
        kw = {}
        for a in e.keywords:
            if a.arg is None:
                v = self.deref(self.eval(a.value))
                if isinstance(v, DictV) and v.cd is not None:
                    kw.update(v.cd)
                else:
                    kw["**"] = v
            else:
                kw[a.arg] = self.eval(a.value)
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        if isinstance(f, FnV):
            if any(isinstance(a, tuple) and len(a) == 2 and a[0] == "*" for a in args) or "**" in kw:
                self.clobber_args(args, kw)
                return Opaque(f.info.name)
            return self.call_function(f.info, args, kw, f.self_val, f.env)
        if isinstance(f, ClsV):
            return self.instantiate(f.info, args, kw)
        if isinstance(f, (ExtV, MethV)):
            return self.models.call(self, f, args, kw)
        c = self.deref(f)
        if isinstance(c, Opaque):
            return Opaque(c.tag + "()", c.alias | self.alias_of(args))
        if isinstance(c, Opt):
            return Opaque("call")
        raise Unsupported(f"call of {f!r}")

    def clobber_args(self, args, kw):
        for a in list(args) + list(kw.values()):
            if isinstance(a, Ref):
                self.clobber(a.id)

    def alias_of(self, args):
        al = frozenset()
        for a in args:
            if isinstance(a, (Ref, ElemRef)):
                c = self.deref(a)
                if isinstance(c, (ArrV, SeqV, Opaque)):
                    al |= {_root(a)}
            elif isinstance(a, Opaque):
                al |= a.alias
        return al

    def instantiate(self, ci, args, kw):
        o = self.new(ObjV(ci, {}))
        init = ci.find(self.prog, "__init__")
        if init is not None:
            self.call_function(init, args, kw, o)
        return o

    def truth(self, v):
        v = self.deref(v)
        if is_bool(v):
            return v
        if v is None:
            return False
        if is_int(v):
            return Not(Eq(v, 0))
        if isinstance(v, (str, tuple)):
            return len(v) > 0
        if isinstance(v, StrS):
            return Not(Eq(v.t, str_code("")))
        if isinstance(v, float):
            return bool(v)
        if isinstance(v, Fl):
            return v.nonzero()
        if isinstance(v, Opaque):
            return self.truth_const(v)
        if isinstance(v, SeqV):
            if v.kind == "arr":
                if isinstance(v.n, int) and v.n == 1:
                    return self.truth(v.get(0))
                return self.fbool("truth")
            return Not(Eq(v.n, 0))
        if isinstance(v, SetV):
            return Not(Eq(self.card(v), 0))
        if isinstance(v, Opt):
            t = self.truth(v.val)
            return And(Not(v.isnone), t)
        if isinstance(v, DictV):
            if v.cd is not None:
                return len(v.cd) > 0
            return self.fbool("truth")
        if isinstance(v, ObjV):
            return True
        return self.fbool("truth")

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        acc = None
        v = None
        conds = []
        n0 = len(self.pc)
        vals = []
        try:
            for i, x in enumerate(e.values):
                v = self.eval(x)
                t = self.truth(v)
                if isinstance(t, bool):
                    if isand and t is False:
                        vals.append((v, False))
                        break
                    if not isand and t is True:
                        vals.append((v, True))
                        break
                    vals.append((v, t))
                    continue
                vals.append((v, t))
                # later operands are evaluated only under this one
                if i + 1 < len(e.values):
                    self.pc.append(t if isand else Not(t))
        finally:
            extra = self.pc[n0:]
            guards = [t for _, t in vals if is_term(t)]
            gid = {(g if isand else Not(g)).get_id() for g in guards}
            del self.pc[n0:]
            # keep facts (axioms about fresh symbols) introduced while evaluating
            for f in extra:
                if f.get_id() not in gid:
                    self.pc.append(f)
        ts = [t for _, t in vals]
        if all(is_bool(self.deref(v)) for v, _ in vals):
            return And(*ts) if isand else Or(*ts)
        if len(vals) == 1 or all(isinstance(t, bool) for t in ts):
            return vals[-1][0]
        # value-returning and/or used in a test
        if all(isinstance(self.deref(v), (Opaque,)) or is_bool(self.deref(v)) or True for v, _ in vals):
            return And(*ts) if isand else Or(*ts)

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not):
            return Not(self.truth(v))
        return self.models.unop(self, e.op, self.deref(v))

    def e_BinOp(self, e):
        a, b = self.eval(e.left), self.eval(e.right)
        return self.models.binop(self, e.op, self.deref(a), self.deref(b))

    def e_Compare(self, e):
        left = self.eval(e.left)
        res = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r)
            res.append(self.models.compare(self, op, left, right))
            left = right
        if len(res) == 1:
            return res[0]
        return And(*[self.truth(x) for x in res])

    def e_IfExp(self, e):
        c = self.truth(self.eval(e.test))
        if isinstance(c, bool):
            return self.eval(e.body if c else e.orelse)
        if self.branch(c):
            return self.eval(e.body)
        return self.eval(e.orelse)

    def e_JoinedStr(self, e):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.eval(v.value)
        return Opaque("str")

    def e_FormattedValue(self, e):
        return Opaque("str")

    def e_Lambda(self, e):
        fi0 = self.env.get("__fi__")
        return FnV(FuncInfo(e, fi0.module, None, "<lambda>"), env=self.env)

    def e_Starred(self, e):
        raise Unsupported("starred")

    def seq_literal(self, elts, kind):
        parts = []
        cur = []
        for x in elts:
            if isinstance(x, ast.Starred):
                if cur:
                    parts.append(seq_items(cur, kind))
                    cur = []
                v = self.deref(self.eval(x.value))
                parts.append(self.models.to_seq(self, v, kind))
            else:
                v = self.eval(x)
                if isinstance(v, (Ref, ElemRef)):
                    v = self.share(v)
                cur.append(v)
        if cur or not parts:
            parts.append(seq_items(cur, kind))
        r = parts[0]
        for p in parts[1:]:
            r = self.models.concat(self, r, p)
        return r

    def share(self, v):
        """value put inside a container: stored by value; later in-place change through the
        original name would be lost, so the original is marked"""
        c = self.deref(v)
        if isinstance(c, ObjV):
            return v
        if isinstance(c, (SetV, DictV, ArrV, SeqV)) and not (isinstance(c, SeqV) and c.kind in ("tuple", "range")):
            r = _root(v)
            if self.pend is not None:
                self.pend.add(r)
            if isinstance(v, Ref):
                if v.id in self.stale:
                    self.pend = None        # stored twice: two elements may be the same object
                self.stale.setdefault(v.id, "stored in a container")
            elif not isinstance(self.heap.get(r), ArrV):
                self.stale.setdefault(("el", r), "stored in a container")
                src = self.esrc.get(r)
                if src is None:
                    self.pend = None
                elif self.pend is not None:
                    self.pend |= src
        return c

    def building(self, thunk):
        """evaluate thunk to a new container cell and record where its elements come from"""
        save, self.pend = self.pend, set()
        try:
            r = thunk()
            if self.pend is not None:
                self.esrc[r.id] = frozenset(self.pend)
            return r
        finally:
            self.pend = save

    def note_elem(self, container, v):
        """share v into an existing container"""
        save, self.pend = self.pend, set()
        try:
            x = self.share(v) if isinstance(v, (Ref, ElemRef)) else v
            if isinstance(container, (Ref, ElemRef)):
                r = _root(container)
                if self.pend is None or r not in self.esrc:
                    if isinstance(x, (SetV, DictV, ArrV, SeqV)):
                        self.esrc.pop(r, None)
                else:
                    self.esrc[r] = self.esrc[r] | self.pend
            return x
        finally:
            self.pend = save

    def e_List(self, e):
        return self.building(lambda: self.new(self.seq_literal(e.elts, "list")))

    def e_Tuple(self, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.seq_literal(e.elts, "tuple")
        return tuple(self.eval(x) for x in e.elts)

    def e_Set(self, e):
        items = [self.deref(self.eval(x)) for x in e.elts]
        return self.new(self.models.set_of_items(self, items))

    def e_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.deref(self.eval(v))
                if isinstance(x, DictV) and x.cd is not None:
                    d.update(x.cd)
                    continue
                return self.new(Opaque("dict"))
            kk = self.deref(self.eval(k))
            vv = self.eval(v)
            if not isinstance(kk, (str, int)):
                return self.new(Opaque("dict"))
            d[kk] = vv
        r = self.new(DictV(cd=d))
        self.esrc[r.id] = frozenset(_root(x) for x in d.values() if isinstance(x, (Ref, ElemRef)))
        return r

    def e_Subscript(self, e):
        b = self.eval(e.value)
        return self.models.load_sub(self, b, e.slice)

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v)
        return v

    def e_Slice(self, e):
        f = lambda x: None if x is None else self.deref(self.eval(x))
        return SliceV(f(e.lower), f(e.upper), f(e.step))

    # comprehensions
    def e_ListComp(self, e):
        return self.building(lambda: self.new(self.comp(e, "list")))

    def e_GeneratorExp(self, e):
        return self.comp(e, "gen")

    def e_SetComp(self, e):
        s = self.comp(e, "list")
        return self.new(self.models.seq_to_set(self, s))

    def e_DictComp(self, e):
        if len(e.generators) == 1 and not e.generators[0].ifs:
            g = e.generators[0]
            it = self.models.iterate(self, self.eval(g.iter))
            if it.items is not None:
                d = {}
                for x in it.items:
                    self.frames.append(dict(self.env))
                    try:
                        self.assign(g.target, x)
                        kk = self.deref(self.eval(e.key))
                        vv = self.deref(self.eval(e.value))
                    finally:
                        self.frames.pop()
                    if not isinstance(kk, (str, int)):
                        return self.new(Opaque("dict"))
                    d[kk] = vv
                return self.new(DictV(cd=d))
        return self.new(Opaque("dict"))

    def comp(self, e, kind):
        if len(e.generators) != 1:
            # nested generators: contents not tracked
            return self.comp_opaque(e, kind)
        g = e.generators[0]
        src = self.eval(g.iter)
        it = self.models.iterate(self, src)
        knd = "list" if kind == "gen" else kind
        if it.items is not None and len(it.items) <= 32:
            out = []
            for x in it.items:
                self.frames.append(dict(self.env))
                try:
                    self.assign(g.target, x)
                    ok = True
                    for c in g.ifs:
                        t = self.truth(self.eval(c))
                        if not self.branch(t):
                            ok = False
                            break
                    if ok:
                        v = self.eval(e.elt)
                        if isinstance(v, (Ref, ElemRef)):
                            v = self.share(v)
                        out.append(v)
                finally:
                    self.frames.pop()
            return seq_items(out, knd)
        sv = self.deref(src)
        # element at a fresh index
        k = self.fint("ck")
        npc = len(self.pc)
        self.frames.append(dict(self.env))
        depth = len(self.frames)
        try:
            self.pc.append(z3.And(k >= 0, as_bool(Lt(k, it.n))))
            x = it.elem(self, k)
            self.assign(g.target, x)
            xd = self.deref(x)
            d0 = self.dec
            def conds():
                return And(*[self.truth(self.eval(c)) for c in g.ifs])
            cond = self.pure(conds) if g.ifs else True
            nc = len(self.pc)
            def elt():
                v = self.eval(e.elt)
                return self.share(v) if isinstance(v, (Ref, ElemRef)) else v
            if cond is not True and is_term(cond):
                self.pc.append(cond)
            val = self.pure(elt)
            ident = isinstance(e.elt, ast.Name) and isinstance(g.target, ast.Name) and e.elt.id == g.target.id
        finally:
            del self.frames[depth - 1:]
            facts = self.pc[npc:]
            del self.pc[npc:]
        # facts about symbols created while evaluating one element: generalise over k
        lim = int(k.decl().name().split("!")[-1])
        for fi_, f in enumerate(facts):
            if fi_ == 0 or cond is not True and is_term(cond) and f.get_id() == cond.get_id():
                continue
            if _only_old(f, lim):
                rng = z3.And(k >= 0, as_bool(Lt(k, it.n)))
                if cond is not True and is_term(cond) and npc + fi_ >= nc:
                    rng = z3.And(rng, cond)
                q, = bvars(1)
                self.pc.append(ForAll([q], z3.substitute(z3.Implies(rng, f), (k, q))))
        if cond is True and not ident and not self._old_value(val, lim) and not isinstance(val, (Opaque, Ref, ElemRef)):
            fs = [f for i, f in enumerate(facts) if i and not _only_old(f, lim)]
            s = self.models.fam_seq(self, it.n, val, fs, k, lim, knd)
            return self.with_mem(s) if s.ety == "int" else s
        val = self.gen_family(val, k, lim)
        if cond is not True and not (is_term(cond) and _only_old(cond, lim)):
            cond = None
        ety = ety_of(val)
        if cond is True:
            if ident and isinstance(sv, SeqV):
                if sv.ety not in ("int", "float", "bool", "str"):
                    self.pend = None
                return sv.with_kind(knd)
            s = SeqV(it.n, lambda i: subst(val, [k], [i]), knd, ety)
            return self.with_mem(s) if ety == "int" else s
        if cond is None:
            return self.fresh(("seq", knd, ety), "filt")
        # filtered
        if ident and isinstance(sv, (SeqV, SetV)) and is_int(xd):
            s = sv if isinstance(sv, SeqV) else None
            # condition as a function of the element value
            vf = None
            if s is not None and s.mem is not None:
                cv = self.cond_of_value(g, conds, x)
                if cv is not None:
                    return self.filter_seq(s, cv, knd)
            if isinstance(sv, SetV):
                cv = self.cond_of_value(g, conds, x)
                if cv is not None:
                    return self.set_to_seq(SetV(lambda v: And(sv.mem(v), cv(v))), knd)
        r = self.fresh(("seq", knd, ety), "filt")
        src_i = self.ffun("src", I, I)
        dst_i = self.ffun("dst", I, I)
        i, j = bvars(2)
        cf = lambda t: subst(cond, [k], [t])
        self.assume(Le(r.n, it.n))
        self.assume(ForAll([i], z3.Implies(z3.And(0 <= i, i < r.n), And(
            0 <= src_i(i), Lt(src_i(i), it.n), as_bool(cf(src_i(i))), dst_i(src_i(i)) == i)), [src_i(i)]))
        self.assume(ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < r.n), src_i(i) < src_i(j)),
                           [z3.MultiPattern(src_i(i), src_i(j))]))
        self.assume(ForAll([j], z3.Implies(And(0 <= j, Lt(j, it.n), as_bool(cf(j))), z3.And(
            0 <= dst_i(j), dst_i(j) < r.n, src_i(dst_i(j)) == j)), [dst_i(j)]))
        out = SeqV(r.n, lambda t: subst(val, [k], [src_i(as_int(t))]), knd, ety)
        return self.with_mem(out) if ety == "int" else out

    def cond_of_value(self, g, conds, x):
        """the filter condition as a function of the element's value (None if impossible)"""
        w = self.fint("cv")
        lim = int(w.decl().name().split("!")[-1])
        npc = len(self.pc)
        self.frames.append(dict(self.env))
        depth = len(self.frames)
        try:
            self.assign(g.target, w)
            c = self.pure(conds)
        except (Unsupported, RaiseEx):
            return None
        finally:
            del self.frames[depth - 1:]
            del self.pc[npc:]
        if isinstance(c, bool):
            return lambda v: c
        if not _only_old(c, lim):
            return None
        return lambda v: z3.substitute(c, (w, as_int(v)))

    def filter_seq(self, s, vf, kind):
        """order-preserving filter by a predicate on values"""
        r = self.fresh(("seq", kind, "int"), "flt")
        v, w = bvars(2)
        mem = lambda x: And(s.mem(x), vf(x))
        d = s.distinct
        self.assume(ForAll([v], r.mem(v) == as_bool(mem(v)), [r.mem(v)]))
        self.assume(Le(r.n, s.n))
        # order is preserved (first occurrences)
        if s.pos is not None:
            self.assume(ForAll([v, w], z3.Implies(z3.And(r.mem(v), r.mem(w)),
                                                  (r.pos(v) < r.pos(w)) == (s.pos(v) < s.pos(w))),
                               [z3.MultiPattern(r.pos(v), r.pos(w))]))
        i, = bvars(1)
        self.assume(ForAll([i], Implies(And(0 <= i, i < r.n), mem(r.get(i))), [r.get(i)]))
        # nothing filtered out -> unchanged length
        self.assume(Or(Eq(r.n, s.n), Exists([i], And(0 <= i, Lt(i, s.n), Not(vf(s.get(i)))))))
        if d is True or is_term(d):
            dd = d if is_term(d) else z3.BoolVal(True)
            self.assume(z3.Implies(dd, r.distinct))
        dist = d if d is not None else r.distinct
        # empty / nonempty
        out = SeqV(r.n, r.get, kind, "int", mem, r.pos, dist)
        return out

    def pure(self, thunk):
        """evaluate an expression whose internal branches are merged into one value"""
        outs = self.explore(thunk)
        outs = [o for o in outs if o.kind == "fall"]
        if not outs:
            raise Unsupported("expression always raises")
        base = len(self.pc)
        mx = max(o.snap.ctr for o in outs)
        if len(outs) == 1:
            o = outs[0]
            self.restore(o.snap)
            return o.val
        # merge
        vals = []
        for o in outs:
            v = o.val
            lits = o.snap.pc[base:]
            vals.append((And(*lits) if lits else True, v, o))
        self.ctr = mx
        r = vals[-1][1]
        for c, v, o in reversed(vals[:-1]):
            r = merge(c, deref_in(o.snap.heap, v), deref_in(vals[-1][2].snap.heap, r) if not is_term(r) else r)
        return r

    def gen_family(self, v, k, lim):
        """replace symbols created for one element by families indexed by k"""
        if is_term(v):
            if _only_old(v, lim):
                return v
            return self._famterm(v, k, lim)
        if isinstance(v, Fl):
            return Fl(self.gen_family(v.v, k, lim) if is_term(v.v) else v.v,
                      self.gen_family(v.nan, k, lim) if is_term(v.nan) else v.nan)
        if isinstance(v, tuple):
            return tuple(self.gen_family(x, k, lim) for x in v)
        if isinstance(v, SetV):
            probe = z3.Int("probe!0")
            if _only_old(as_bool(v.mem(probe)), lim):
                return v
            f = self.family("gset", ("set",), 1)
            return f(k)
        if isinstance(v, SeqV):
            probe = z3.Int("probe!0")
            if v.items is not None:
                items = [self.gen_family(x, k, lim) for x in v.items]
                return seq_items(items, v.kind)
            if is_term(v.n) and not _only_old(v.n, lim) or True:
                # keep only when closed under old symbols
                try:
                    g = v.get(probe)
                    okv = (is_term(g) and _only_old(g, lim)) or (isinstance(g, Fl) and _only_old(g.v, lim) and (
                        not is_term(g.nan) or _only_old(g.nan, lim)))
                except Exception:
                    okv = False
                if okv and (not is_term(v.n) or _only_old(v.n, lim)):
                    return v
            f = self.family("gseq", ("seq", v.kind, v.ety), 1)
            return f(k)
        if isinstance(v, ArrV):
            probes = [z3.Int(f"probe!{i}") for i in range(v.ndim)]
            try:
                g = v.get(*probes)
                ok = (is_term(g) and _only_old(g, lim)) or (isinstance(g, Fl) and _only_old(g.v, lim) and (
                    not is_term(g.nan) or _only_old(g.nan, lim)))
            except Exception:
                ok = False
            if ok:
                return v
            if all(not is_term(x) or _only_old(x, lim) for x in v.shape):
                f = self.family("garr", v.dtype, 1 + v.ndim)
                return ArrV(v.shape, lambda *i: f(k, *i), v.dtype)
            return Opaque("garr")
        return v

    def _old_value(self, v, lim):
        """no symbol of the value was created after the given point"""
        p = [z3.Int(f"probe!{i}") for i in range(4)]
        if is_term(v):
            return _only_old(v, lim)
        if isinstance(v, Fl):
            return self._old_value(v.v, lim) and self._old_value(v.nan, lim)
        if isinstance(v, tuple):
            return all(self._old_value(x, lim) for x in v)
        if isinstance(v, SetV):
            return self._old_value(v.mem(p[0]), lim) and self._old_value(v.card, lim)
        if isinstance(v, SeqV):
            if v.items is not None:
                return all(self._old_value(x, lim) for x in v.items)
            return self._old_value(v.n, lim) and self._old_value(v.get(p[0]), lim)
        if isinstance(v, ArrV):
            return all(self._old_value(x, lim) for x in v.shape) and self._old_value(v.get(*p[:v.ndim]), lim)
        return True

    def _famterm(self, v, k, lim):
        s = v.sort()
        f = self.ffun("el", I, s)
        return f(k)


class LoopExit(Exception):
    pass


class Cand:
    def __init__(self, name, f, assume_entry=False):
        self.name, self.f, self.assume_entry = name, f, assume_entry


class LoopCtx:
    """what loop templates may look at: variables by type, never by name"""

    def __init__(self, ex, node, it, entry, head, ev, hv, mods, k, n, seqs, arrs, sets_, ints, opts, dicts):
        self.ex, self.node, self.it = ex, node, it
        self.entry, self.head, self.ev, self.hv = entry, head, ev, hv
        self.mods, self.k, self.n = mods, k, n
        self.seqs, self.arrs, self.sets, self.ints, self.opts, self.dicts = seqs, arrs, sets_, ints, opts, dicts

    def entry_value(self, loc):
        try:
            return self.ev.loc(loc)
        except KeyError:
            return None

    def const_ints(self):
        """integer variables in scope the loop does not change"""
        out = []
        for nm, v in self.head.frames[-1].items():
            if ("var", nm) in self.mods or nm.startswith("__"):
                continue
            if is_int(v) and is_term(v):
                out.append((nm, v))
        return out

    def const_values(self, pred):
        out = []
        seen = set()
        for fr in self.head.frames[-1:]:
            for nm, v in fr.items():
                if ("var", nm) in self.mods or nm.startswith("__"):
                    continue
                try:
                    d = deref_in(self.head.heap, v)
                except Exception:
                    continue
                if isinstance(v, Ref) and ("cell", v.id) in self.mods:
                    continue
                if pred(d):
                    out.append((nm, d))
        return out


class CallCtx:
    def __init__(self, ex, env, fi):
        self.ex, self.env, self.fi = ex, env, fi
        self.old = self.new = None

    def arg(self, name):
        """deref'd current argument value; by position name in the real signature"""
        return self.ex.deref(self.env[name])

    def raw(self, name):
        return self.env[name]

    def param(self, i):
        """i-th parameter by position (robust to renaming)"""
        a = self.fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        return self.env[names[i]]

    def pval(self, i):
        return self.ex.deref(self.param(i))


def _isnone(v):
    return True if v is None else v.isnone if isinstance(v, Opt) else False


def _as_load(t):
    t2 = ast.parse(ast.unparse(t), mode="eval").body
    ast.copy_location(t2, t)
    return t2


def _root(v):
    while isinstance(v, ElemRef):
        v = v.base
    return v.id


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.id == b.id
    if is_term(a) and is_term(b):
        return a.eq(b)
    if isinstance(a, ElemRef) and isinstance(b, ElemRef):
        return same(a.base, b.base) and same(a.idx, b.idx)
    if isinstance(a, Fl) and isinstance(b, Fl):
        return same(a.v, b.v) and same(a.nan, b.nan)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float, str, bool)) and isinstance(b, (int, float, str, bool)):
        return type(a) is type(b) and a == b
    return False


def _same_term(a, b):
    if is_term(a) and is_term(b):
        return a.eq(b)
    if not is_term(a) and not is_term(b):
        return a == b
    return False


def _exc_names(t):
    if t is None:
        return None
    if isinstance(t, ast.Tuple):
        return [x.id for x in t.elts if isinstance(x, ast.Name)]
    if isinstance(t, ast.Name):
        return [t.id]
    return None


def _only_old(f, lim):
    """no symbol created after the counter value lim"""
    for s in solver.symbols(f):
        if s.startswith("truth@"):
            return False
        tail = s.rsplit("!", 1)
        if len(tail) == 2 and tail[1].isdigit() and not s.startswith(("q!", "probe!")) and int(tail[1]) > lim:
            return False
    return True


def _within(s, sz):
    v, = bvars(1)
    return ForAll([v], Implies(s.has(v), And(Le(0, v), Lt(v, sz))))


def _subset(s, e):
    v, = bvars(1)
    return ForAll([v], Implies(s.has(v), e.has(v)))


def _disjoint(a, b):
    v, = bvars(1)
    return ForAll([v], Not(And(a.has(v), b.has(v))))


def _cover(a, b, sz):
    v, = bvars(1)
    return ForAll([v], Implies(And(Le(0, v), Lt(v, sz)), Or(a.has(v), b.has(v))))
