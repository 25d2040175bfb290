"""Contracts of lingam.utils and of the prior-knowledge constructor."""
import itertools

import z3

from pyvc.values import *
from pyvc.verify import Contract

UT = "lingam.utils"


def rng(n, *v):
    return And(*[And(Le(0, x), Lt(x, n)) for x in v])


NAMES = ("exogenous_variables", "sink_variables", "paths", "no_paths")


class MakePriorKnowledge(Contract):
    """documented encoding: -1 unless excluded (0) or required (1); sink/exogenous override pairs, paths override
    no_paths, diagonal is -1"""
    qual = UT + ":make_prior_knowledge"
    arity = 5
    cases = tuple("+".join(n for n, b in zip(NAMES, bits) if b) or "nothing given"
                  for bits in itertools.product((0, 1), repeat=4))
    props = ("C02",)
    root = True

    def setup(self, S, case):
        n = S.size("n")
        kw = {}
        for nm in NAMES:
            if nm not in case.split("+"):
                continue
            if nm in ("paths", "no_paths"):
                r = S.seq(ety=("tuple", ("int", "int")), nm=nm)
                s = S.d(r)
                i, = bvars(1)
                a, b = s.get(i)
                S.assume(ForAll([i], Implies(And(Le(0, i), Lt(i, s.n)), rng(n, a, b)), [a]))
            else:
                r = S.seq(nm=nm)
                s = S.d(r)
                v, = bvars(1)
                S.assume(ForAll([v], Implies(s.has(v), rng(n, v))))
            kw[nm] = r
        self.lists = {k: S.d(r) for k, r in kw.items()}
        return None, [n], kw

    def modifies(self, ctx):
        return set()

    def listed(self, s, r, c):
        i, = bvars(1)
        a, b = s.get(i)
        return Exists([i], And(Le(0, i), Lt(i, s.n), Eq(a, c), Eq(b, r)))

    def post(self, ctx, res):
        A = ctx.ex.deref(res)
        n = ctx.pval(0)
        L = self.lists
        r, c = bvars(2)
        out = [("shape", And(Eq(A.shape[0], n), Eq(A.shape[1], n)))]
        ok = rng(n, r, c)
        none = True
        diff = Not(Eq(r, c))
        ex_ = L["exogenous_variables"].has(r) if "exogenous_variables" in L else False
        si_ = L["sink_variables"].has(c) if "sink_variables" in L else False
        pa_ = self.listed(L["paths"], r, c) if "paths" in L else False
        no_ = self.listed(L["no_paths"], r, c) if "no_paths" in L else False
        val = A.get(r, c)
        out.append(("diagonal is -1", ForAll([r], Implies(rng(n, r), Eq(A.get(r, r), -1)))))
        out.append(("exogenous row or sink column is 0", ForAll([r, c], Implies(And(ok, diff, Or(ex_, si_)), Eq(val, 0)))))
        out.append(("required path is 1", ForAll([r, c], Implies(And(ok, diff, Not(ex_), Not(si_), pa_), Eq(val, 1)))))
        out.append(("excluded path is 0", ForAll([r, c], Implies(And(ok, diff, Not(ex_), Not(si_), Not(pa_), no_), Eq(val, 0)))))
        out.append(("everything else is -1", ForAll([r, c], Implies(And(ok, Not(ex_), Not(si_), Not(pa_), Not(no_)), Eq(val, -1)))))
        return out

    def loop_candidates(self, L):
        out = []
        for nm, loc, v in L.arrs:
            E = L.entry_value(loc)
            if not isinstance(E, ArrV) or E.ndim != 2:
                continue
            for ln, s in self.lists.items():
                if L.n is not s.n and not (is_term(L.n) and is_term(s.n) and L.n.eq(s.n)):
                    continue        # not the list this loop runs over
                if ln in ("paths", "no_paths"):
                    for val in (0, 1):
                        def hit(sv, l=loc, s=s, val=val):
                            i, = bvars(1)
                            a, b = s.get(i)
                            return ForAll([i], Implies(And(Le(0, i), Lt(i, sv.k), Lt(i, s.n)), Eq(sv.loc(l).get(b, a), val)), [a])
                        out.append((f"visited {ln} are {val}", hit))

                        def rest(sv, l=loc, s=s, val=val, E=E):
                            r, c = bvars(2)
                            i, = bvars(1)
                            a, b = s.get(i)
                            B = sv.loc(l)
                            return ForAll([r, c], Or(Eq(B.get(r, c), E.get(r, c)), And(
                                Eq(B.get(r, c), val), Exists([i], And(Le(0, i), Lt(i, sv.k), Lt(i, s.n), Eq(a, c), Eq(b, r))))))
                        out.append((f"others unchanged ({ln} {val})", rest))
                else:
                    for ax in (0, 1):
                        def upd(sv, l=loc, s=s, ax=ax, E=E):
                            r, c = bvars(2)
                            B = sv.loc(l)
                            i, = bvars(1)
                            vis = And(s.has((r, c)[ax]), Lt(s.pos((r, c)[ax]), sv.k))
                            return ForAll([r, c], Implies(rng(B.shape[0], r, c), Eq(B.get(r, c), If(vis, 0, E.get(r, c)))))
                        out.append((f"{ln} axis {ax}", upd))
        return out


CONTRACTS = [MakePriorKnowledge()]
