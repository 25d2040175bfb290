"""C01/C02: MultiGroupDirectLiNGAM: one shared order, one matrix per group."""
import z3

from pyvc.values import *
from pyvc.verify import Contract
from .direct import CASES, ExtractPartialOrders, Fit, SearchCandidate, SearchOrder, direct_obj, pair_index, strict
from .order import EstAdj, perm, pkzero, respects
from .settings import CheckXList
from .utils import rng

MG = "lingam.multi_group_direct_lingam:MultiGroupDirectLiNGAM"


class MGSearchOrder(SearchOrder):
    qual = MG + "._search_causal_order"

    def setup(self, S, case):
        o, (U,), _ = SearchCandidate.setup(self, S, case)
        return o, [S.seq(ety=("arr", 2, "float"), nm="Xs"), U], {}


def group_matrices(Bs, s, n, k, pk):
    """the matrices of groups 0..k-1"""
    g, r, c = bvars(3)
    B = Bs.get(g)
    ok = And(Le(0, g), Lt(g, k))
    out = [ForAll([g], Implies(ok, And(Eq(B.shape[0], n), Eq(B.shape[1], n)))),
           ForAll([g, r, c], Implies(And(ok, rng(n, r, c), B.get(r, c).nonzero()), Lt(s.pos(c), s.pos(r))))]
    if pk is not None:
        out.append(ForAll([g, r, c], Implies(And(ok, rng(n, r, c), pkzero(pk, r, c)), B.get(r, c).is_zero())))
    return out


class MGFit(Fit):
    qual = MG + ".fit"
    cases = CASES
    props = ("C01", "C02")
    root = True

    def setup(self, S, case):
        n = S.size("n")
        Xs = S.seq(ety=("arr", 2, "float"), nm="Xs")
        self.pk = None
        o = direct_obj(S, case, n, cls=MG)
        pk = S.d(o).attrs["_Aknw"]
        self.pk = S.d(pk) if pk is not None else None
        S.assume(Eq(S.d(Xs).get(0).shape[1], n))
        self.n = n
        return o, [Xs], {}

    def modifies(self, ctx):
        i = ctx.param(0).id
        return {("attr", i, a) for a in ("_adjacency_matrix", "_adjacency_matrices", "_causal_order", "_partial_orders", "_n_features")}

    def post(self, ctx, res):
        n, pk = self.n, self.pk
        me = ctx.param(0)
        Xs = ctx.old.deref(ctx.param(1))
        Bs, s = ctx.new.attr(me, "_adjacency_matrices"), ctx.new.attr(me, "_causal_order")
        f = group_matrices(Bs, s, n, Bs.n, pk)
        out = [("causal order lists every variable exactly once", perm(s, n)), ("one matrix per group", Eq(Bs.n, Xs.n)),
               ("matrices are square", f[0]), ("matrices respect the order", f[1]),
               ("returns self", z3.BoolVal(isinstance(res, Ref) and res.id == me.id))]
        if pk is not None:
            out.append(("forbidden paths have no coefficient", f[2]))
        if strict(ctx.old.deref(me)):
            a, b = bvars(2)
            out.append(("order follows the prior knowledge", ForAll([a, b], Implies(
                And(rng(n, a, b), Not(Eq(a, b)), pair_index(pk, a, b)), Lt(s.pos(a), s.pos(b))))))
        return out

    def loop_candidates(self, L):
        out = Fit.loop_candidates(self, L)
        n = self.n
        for nm, loc, v in L.seqs:
            if not isinstance(v.ety, tuple) and v.ety is not None:
                continue
            for cn, s in L.const_values(lambda d: isinstance(d, SeqV) and d.ety == "int"):
                for i, t in enumerate(("square", "respect " + cn, "no excluded path")):
                    if i == 2 and self.pk is None:
                        continue

                    def f(sv, l=loc, i=i, s=s):
                        S = sv.loc(l)
                        if isinstance(S.n, int) and S.n == 0:
                            return True
                        return group_matrices(S, s, n, S.n, self.pk)[i]
                    out.append((f"{nm}: matrices {t}", f))
        return out


CONTRACTS = [SearchCandidate(), ExtractPartialOrders(), EstAdj(), CheckXList(), MGSearchOrder(), MGFit()]
