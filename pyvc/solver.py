"""Discharging verification conditions: z3 (API) first, then cvc5 (CLI) on the SMT-LIB text."""
import os
import subprocess
import tempfile
import time

import z3

z3.set_param("smt.random_seed", 1)
z3.set_param("sat.random_seed", 1)

STATS = {"queries": 0, "time": 0.0, "z3": 0, "cvc5": 0, "houdini_queries": 0}
_cache = {}


def has_quant(e, _memo={}):
    k = e.get_id()
    r = _memo.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    res = False
    if z3.is_quantifier(e):
        res = True
    else:
        for c in e.children():
            if has_quant(c):
                res = True
                break
    _memo[k] = (e, res)
    return res


def symbols(e, _memo={}):
    k = e.get_id()
    r = _memo.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    out = set()
    if z3.is_quantifier(e):
        out |= symbols(e.body())
    elif z3.is_app(e):
        d = e.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(d.name())
        for c in e.children():
            out |= symbols(c)
    _memo[k] = (e, out)
    return out


def cone(pc, goal):
    """keep the hypotheses connected to the goal by shared symbols"""
    need = set(symbols(goal))
    rest = [(f, symbols(f)) for f in pc]
    keep = [False] * len(rest)
    changed = True
    while changed:
        changed = False
        for i, (f, s) in enumerate(rest):
            if not keep[i] and (not s or s & need):
                keep[i] = True
                if not s <= need:
                    need |= s
                    changed = True
    return [f for i, (f, s) in enumerate(rest) if keep[i]]


def feasible(pc, extra, ms=300):
    s = z3.Solver()
    s.set("timeout", ms)
    for f in pc:
        if not has_quant(f):
            s.add(f)
    if not has_quant(extra):
        s.add(extra)
    return s.check() != z3.unsat


class Result:
    def __init__(self, status, model=None, backend="z3", time=0.0, smt=None):
        self.status, self.model, self.backend, self.time, self.smt = status, model, backend, time, smt


def prove(pc, goal, ms=10000, cvc5=True, want_model=False, rl=None):
    """status: 'proved' | 'refuted' (model of the negation) | 'unknown'"""
    STATS["queries"] += 1
    t0 = time.time()
    if isinstance(goal, bool):
        goal = z3.BoolVal(goal)
    pc = [f for f in pc if not isinstance(f, bool) or f is False]
    pc = [z3.BoolVal(False) if f is False else f for f in pc]
    g = z3.simplify(goal)
    if z3.is_true(g):
        STATS["time"] += time.time() - t0
        STATS["z3"] += 1
        return Result("proved", backend="simplify")
    hyps = cone(pc, goal)
    key = (goal.get_id(), frozenset(f.get_id() for f in hyps))
    hit = _cache.get(key)
    if hit is not None and hit[0].eq(goal) and (hit[1].status != "unknown" or rl):
        return hit[1]
    res = None
    # conjunct by conjunct keeps each query small
    parts = conjuncts(goal)
    if len(parts) > 1:
        st, md, be = "proved", None, "z3"
        for p in parts:
            r = prove(pc, p, ms, cvc5, want_model, rl)
            if r.status != "proved":
                st, md = r.status, r.model
                break
            be = r.backend
        res = Result(st, md, be)
    else:
        s = z3.Solver()
        s.set("timeout", ms)
        if rl:
            s.set("rlimit", rl)      # resource units: the same answer on a loaded machine
        s.add(*hyps)
        s.add(z3.Not(goal))
        c = s.check()
        if c == z3.unsat:
            STATS["z3"] += 1
            res = Result("proved", backend="z3")
        elif c == z3.sat:
            res = Result("refuted", model=s.model(), backend="z3")
        else:
            res = Result("unknown", backend="z3")
            if cvc5:
                c2 = run_cvc5(s, max(5, ms // 1000))
                if c2 == "unsat":
                    STATS["cvc5"] += 1
                    res = Result("proved", backend="cvc5")
    res.time = time.time() - t0
    STATS["time"] += res.time
    _cache[key] = (goal, res, hyps)
    return res


def conjuncts(g):
    if z3.is_and(g):
        out = []
        for c in g.children():
            out += conjuncts(c)
        return out
    if z3.is_quantifier(g) and g.is_forall():
        n = g.num_vars()
        body = g.body()
        vs = [z3.Const(f"sk!{g.get_id()}!{i}!{g.var_name(i)}", g.var_sort(i)) for i in range(n)]
        b = z3.substitute_vars(body, *reversed(vs))
        # skolemise: proving a universal goal needs one arbitrary instance
        return conjuncts(b)
    if z3.is_implies(g):
        return [z3.Implies(g.arg(0), c) for c in conjuncts(g.arg(1))]
    if z3.is_or(g):
        # Or(a, And(b, c)) -> Or(a,b), Or(a,c)
        ch = g.children()
        for i, c in enumerate(ch):
            if z3.is_and(c) or (z3.is_quantifier(c) and c.is_forall()):
                rest = ch[:i] + ch[i + 1:]
                out = []
                for p in conjuncts(c):
                    out += conjuncts(z3.Or(*(rest + [p])))
                return out
    return [g]


def run_cvc5(solver, secs):
    txt = solver.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + txt)
        name = f.name
    try:
        p = subprocess.run(["cvc5", f"--tlimit={secs*1000}", name], capture_output=True,
                           text=True, timeout=secs + 5)
        return p.stdout.strip().split("\n")[0]
    except Exception:
        return "unknown"
    finally:
        os.unlink(name)
