"""Verification of one contract against the real function body."""
import time
import traceback

import z3

from . import models, solver
from .interp import CallCtx, Exec, RaiseEx, SV
from .values import *


class Contract:
    """Sidecar contract of one function of /repo.

    qual        function under contract
    owner       class the receiver has (default: class in qual)
    cases       verification cases (different argument shapes); each is set up by setup()
    arity       number of positional parameters the contract was written for (None: any)
    The same post() is proved of the body and assumed at call sites."""
    qual = ""
    owner = None
    cases = ("",)
    arity = None
    props = ()
    root = False          # public guarantee (True) or helper lemma (False)
    vc_ms = 10000
    exact = False         # floats as mathematical reals instead of uninterpreted operations

    # -- body side
    def setup(self, S, case):
        raise NotImplementedError

    def exc_post(self, ctx, etype, implicit):
        """formulas to prove when the body raises; None: no claim"""
        return None

    def modifies(self, ctx):
        """heap locations of the caller the function may change; None: no frame claim"""
        return None

    # -- shared
    def pre(self, ctx):
        return []

    def post(self, ctx, res):
        return []

    # -- caller side
    callable = True       # may callers use the contract (False: body-side only)

    def raises(self, ctx):
        return []

    def result(self, ctx):
        raise NotImplementedError

    def usable(self):
        return self.callable and type(self).result is not Contract.result

    def loop_candidates(self, L):
        return []

    def applies(self, fi):
        if self.arity is None:
            return True
        a = fi.node.args
        return len(a.posonlyargs + a.args) == self.arity and not a.vararg


class Setup:
    """helper to build symbolic arguments"""

    def __init__(self, ex, prog):
        self.ex, self.prog = ex, prog

    def size(self, nm, lo=0):
        v = self.ex.fint(nm)
        self.ex.assume(v >= lo)
        self.ex.sizes.append(v)
        return v

    def obj(self, cls, **attrs):
        ci = self.prog.cls(cls)
        return self.ex.new(ObjV(ci, dict(attrs), True))

    def arr(self, *shape, dtype="float", nm="A"):
        return self.ex.new(self.ex.fresh_arr(list(shape), dtype, nm))

    def seq(self, kind="list", ety="int", nm="s", n=None):
        r = self.ex.new(self.ex.fresh(("seq", kind, ety), nm, n=n))
        self.ex.esrc[r.id] = frozenset()
        return r

    def assume(self, f):
        self.ex.assume(f)

    def d(self, r):
        return self.ex.deref(r)


class ObRes:
    __slots__ = ("func", "case", "name", "status", "backend", "time", "detail", "kind")

    def __init__(self, func, case, name, status, backend="", time=0.0, detail="", kind="post"):
        self.func, self.case, self.name, self.status = func, case, name, status
        self.backend, self.time, self.detail, self.kind = backend, time, detail, kind

    def as_dict(self):
        return {k: getattr(self, k) for k in self.__slots__}


class FnReport:
    def __init__(self, qual, case):
        self.qual, self.case = qual, case
        self.status = "ok"          # ok | failed | unsupported | absent | vacuous
        self.reason = ""
        self.obls = []
        self.assumptions = set()
        self.inlined = set()
        self.used = set()
        self.loops = []
        self.paths = 0
        self.time = 0.0
        self.solver_time = 0.0
        self.queries = 0

    def as_dict(self):
        return dict(qual=self.qual, case=self.case, status=self.status, reason=self.reason,
                    obls=[o.as_dict() for o in self.obls], assumptions=sorted(self.assumptions),
                    inlined=sorted(self.inlined), used=sorted(self.used), loops=self.loops,
                    paths=self.paths, time=round(self.time, 2),
                    solver_time=round(self.solver_time, 2), queries=self.queries)


def verify(prog, c, case, table, ms=None, debug=False):
    """table: {qual: Contract} usable at call sites"""
    rep = FnReport(c.qual, case)
    t0 = time.time()
    st0 = dict(solver.STATS)
    ms = ms or c.vc_ms
    models.EXACT[0] = c.exact
    try:
        fi = prog.func(c.qual)
    except (KeyError, AttributeError):
        rep.status, rep.reason = "absent", "function not found"
        return rep
    if not c.applies(fi):
        rep.status, rep.reason = "absent", "signature differs from the contract's"
        return rep
    ex = Exec(prog, {q: k for q, k in table.items() if k.callable}, models, hints=c)
    S = Setup(ex, prog)
    try:
        self_val, args, kwargs = c.setup(S, case)
        env = ex.bind(fi, args, kwargs, self_val)
        ctx = CallCtx(ex, env, fi)
        ctx.case, ctx.S = case, S
        for nm, f in c.pre(ctx) or []:
            ex.assume(f)
        entry = ex.snapshot()
        ctx.old = SV(dict(env), dict(entry.heap))
        n_ev = len(ex.events)

        def body():
            ex.events = []
            r = ex.inline(fi, args, kwargs, self_val)
            return (r, list(ex.events))

        outs = ex.explore(body)
        rep.paths = len(outs)
        jobs = []
        normal = 0
        mods = c.modifies(ctx)
        for o in outs:
            sv = SV(dict(env), dict(o.snap.heap))
            ctx.new = sv
            if o.kind == "fall":
                normal += 1
                res, ctx.events = o.val
                ctx.exit_pc = o.pc
                ex.restore(o.snap)
                npc = len(ex.pc)
                goals = c.post(ctx, res) or []
                pc = list(ex.pc)
                for nm, f in goals:
                    jobs.append((f"ensures {nm}", pc, as_bool(f), "post"))
                if mods is not None:
                    bad = frame_diff(entry.heap, o.snap.heap, mods)
                    jobs.append(("frame: only declared locations change", pc,
                                 z3.BoolVal(not bad), f"frame {sorted(bad)[:4]}"))
            elif o.kind == "raise":
                ctx.events = []
                ex.restore(o.snap)
                goals = c.exc_post(ctx, o.val.etype, o.val.implicit)
                for nm, f in goals or []:
                    jobs.append((f"raises {o.val.etype} only if {nm}", list(ex.pc), as_bool(f), "exc"))
                if mods is not None and not o.val.implicit:
                    bad = frame_diff(entry.heap, o.snap.heap, mods)
                    jobs.append(("frame on raise", o.pc, z3.BoolVal(not bad), f"frame {sorted(bad)[:4]}"))
        for ob in ex.obls:
            jobs.append((ob.name, ob.pc, ob.goal, "call"))
        seen = set()
        for nm, pc, g, kind in jobs:
            key = (nm, g.get_id(), hash(tuple(f.get_id() for f in pc)))
            if key in seen:
                continue
            seen.add(key)
            r = solver.prove(pc, g, ms=ms)
            rep.obls.append(ObRes(c.qual, case, nm, r.status, r.backend, round(r.time, 3),
                                  "" if r.status == "proved" else str(g)[:600] + (
                                      "\nmodel: " + str(r.model)[:600] if r.model is not None else ""), kind))
            if r.status != "proved":
                rep.status = "failed"
        if normal == 0:
            rep.status, rep.reason = "vacuous", "no path returns normally"
        elif not any(_sat(o.pc) for o in outs if o.kind == "fall"):
            rep.status, rep.reason = "vacuous", "every returning path is contradictory"
    except Unsupported as e:
        rep.status, rep.reason = "unsupported", str(e)
        if debug:
            traceback.print_exc()
    except RaiseEx as e:
        rep.status, rep.reason = "unsupported", f"setup raised {e.etype}"
        if debug:
            traceback.print_exc()
    except RecursionError:
        rep.status, rep.reason = "unsupported", "recursion limit"
    except Exception as e:     # an engine defect must never look like a verdict about the code
        rep.status, rep.reason = "unsupported", f"engine: {type(e).__name__}: {e}"
        if debug:
            traceback.print_exc()
    rep.assumptions |= ex.assumptions
    rep.inlined |= ex.inlined
    rep.used |= ex.used_contracts
    rep.loops = [(a, b) for a, b, _ in ex.inv_log]
    rep.dropped = [(a, d) for a, _, d in ex.inv_log]
    rep.time = time.time() - t0
    rep.solver_time = solver.STATS["time"] - st0["time"]
    rep.queries = solver.STATS["queries"] - st0["queries"]
    return rep


def _sat(pc):
    s = z3.Solver()
    s.set("timeout", 2000)
    s.add(*pc)
    return s.check() != z3.unsat


def frame_diff(h0, h1, mods):
    bad = set()
    for cid, c in h0.items():
        c2 = h1.get(cid)
        if c2 is c or ("cell", cid) in mods:
            continue
        if isinstance(c, ObjV) and isinstance(c2, ObjV):
            for a in set(c.attrs) | set(c2.attrs):
                x, y = c.attrs.get(a, "?"), c2.attrs.get(a, "?")
                if x is y or ("attr", cid, a) in mods or ("attr", cid, "*") in mods:
                    continue
                if isinstance(x, Ref) and isinstance(y, Ref) and x.id == y.id:
                    continue
                if x == "?" and isinstance(y, Opaque) and c.havoced:
                    continue
                bad.add(("attr", cid, a))
        else:
            bad.add(("cell", cid))
    return {str(b) for b in bad}
