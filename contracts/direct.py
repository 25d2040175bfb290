"""C01/C02: DirectLiNGAM: the order is a permutation and follows prior knowledge."""
import z3

from pyvc.values import *
from pyvc.verify import Contract
from .order import EstAdj, perm, pkzero, respects

D = "lingam.direct_lingam:DirectLiNGAM"
CASES = ("no prior knowledge", "strict prior knowledge", "soft prior knowledge")


def direct_obj(S, case, n, cls=D, **attrs):
    a = dict(_Aknw=None, _apply_prior_knowledge_softly=False, _measure="pwling")
    if case != CASES[0]:
        a["_Aknw"] = S.arr(n, n, nm="Aknw")
        a["_apply_prior_knowledge_softly"] = case == CASES[2]
    a.update(attrs)
    return S.obj(cls, **a)


def fresh_pairs(ex, nm="po"):
    """an (N, 2) integer array with row multiplicities"""
    from pyvc import models
    return models.with_rows(ex, ex.fresh_arr([ex.fsize(nm + "_n"), 2], "int", nm))


def strict(o):
    return o.attrs.get("_Aknw") is not None and o.attrs.get("_apply_prior_knowledge_softly") is False


class SearchCandidate(Contract):
    qual = D + "._search_candidate"
    arity = 2
    cases = CASES
    props = ("C01", "C02", "C18")

    def setup(self, S, case):
        n = S.size("n")
        U = S.seq(kind="arr", nm="U")
        o = direct_obj(S, case, n)
        if case == CASES[1]:
            S.d(o).attrs["_partial_orders"] = S.ex.new(fresh_pairs(S.ex))
        u = S.d(U)
        v, = bvars(1)
        S.assume(u.is_distinct())
        S.assume(ForAll([v], Implies(u.has(v), And(Le(0, v), Lt(v, n)))))
        return o, [U], {}

    def pre(self, ctx):
        return [("candidates are distinct", ctx.pval(1).is_distinct())]

    def modifies(self, ctx):
        return set()

    def post(self, ctx, res):
        ex = ctx.ex
        U = ctx.old.deref(ctx.param(1))
        t = ex.deref(res)
        uc = ex.deref(t[0])
        v, = bvars(1)
        out = [("candidates come from the remaining variables", ForAll([v], Implies(uc.has(v), U.has(v)))),
               ("candidates are distinct", uc.is_distinct())]
        o = ctx.old.deref(ctx.param(0))
        if o.attrs.get("_Aknw") is None:
            out.append(("without prior knowledge all are candidates", ForAll([v], Eq(uc.has(v), U.has(v)))))
        if strict(o):
            po = ctx.old.deref(o.attrs["_partial_orders"])
            a, = bvars(1)
            out.append(("no candidate has an unplaced predecessor",
                        ForAll([a, v], Implies(uc.has(v), Not(Lt(0, po.rowcnt(a, v)))))))
        return out

    def result(self, ctx):
        ex = ctx.ex
        return (ex.new(ex.fresh(("seq", "list", "int"), "Uc")), ex.new(ex.fresh(("seq", "list", "int"), "Vj")))


class SearchOrder(Contract):
    qual = D + "._search_causal_order"
    arity = 3
    cases = CASES
    props = ("C01", "C02", "C18")

    def setup(self, S, case):
        m, n = S.size("m"), S.size("n")
        X = S.arr(m, n, nm="X")
        o, (U,), _ = SearchCandidate().setup.__func__(self, S, case)
        return o, [X, U], {}

    def setup(self, S, case):   # noqa: F811
        m = S.size("m")
        o, (U,), _ = SearchCandidate.setup(self, S, case)
        n = S.ex.sizes[-1]
        return o, [S.arr(m, n, nm="X"), U], {}

    def pre(self, ctx):
        return [("candidates are distinct", ctx.pval(2).is_distinct())]

    def modifies(self, ctx):
        return set()

    def post(self, ctx, res):
        U = ctx.old.deref(ctx.param(2))
        r = ctx.ex.deref(res)
        out = [("chosen variable is one of the remaining", U.has(r) if is_int(r) else False)]
        o = ctx.old.deref(ctx.param(0))
        if strict(o):
            po = ctx.old.deref(o.attrs["_partial_orders"])
            a, = bvars(1)
            out.append(("chosen variable has no unplaced predecessor", ForAll([a], Not(Lt(0, po.rowcnt(a, r))))))
        return out

    def result(self, ctx):
        return ctx.ex.fint("m")


class SearchOrderKernel(SearchOrder):
    qual = D + "._search_causal_order_kernel"


def pair_index(pk, a, b):
    """a must precede b according to strictly applied prior knowledge"""
    return Or(Eq1(pk, b, a), And(pkzero(pk, a, b), Not(pkzero(pk, b, a))))


def Eq1(pk, r, c):
    x = pk.get(r, c)
    return And(Not(x.nan), Eq(x.v, z3.RealVal(1)))


class ExtractPartialOrders(Contract):
    qual = D + "._extract_partial_orders"
    arity = 2
    props = ("C01", "C02", "C18")

    def setup(self, S, case):
        n = S.size("n")
        return S.obj(D), [S.arr(n, n, nm="pk")], {}

    def modifies(self, ctx):
        return set()

    def post(self, ctx, res):
        pk = ctx.old.deref(ctx.param(1))
        po = ctx.ex.deref(res)
        n = pk.shape[0]
        a, b = bvars(2)
        rng = And(Le(0, a), Lt(a, n), Le(0, b), Lt(b, n))
        if po.rowcnt is None:
            return [("result lists pairs", False)]
        return [("every ordered pair of the prior knowledge is listed",
                 ForAll([a, b], Implies(And(rng, Not(Eq(a, b)), pair_index(pk, a, b)), Lt(0, po.rowcnt(a, b))))),
                ("only pairs of variables are listed", ForAll([a, b], Implies(Lt(0, po.rowcnt(a, b)), rng))),
                ("no contradicting required paths", ForAll([a, b], Implies(And(rng, Not(Eq(a, b))), Not(And(Eq1(pk, a, b), Eq1(pk, b, a))))))]

    def exc_post(self, ctx, etype, implicit):
        if implicit or etype != "ValueError":
            return None
        pk = ctx.old.deref(ctx.param(1))
        n = pk.shape[0]
        a, b = bvars(2)
        return [("two required paths contradict each other", Exists([a, b], And(
            Le(0, a), Lt(a, n), Le(0, b), Lt(b, n), Eq1(pk, a, b), Eq1(pk, b, a))))]

    def raises(self, ctx):
        return [("ValueError", True)]

    def result(self, ctx):
        return ctx.ex.new(fresh_pairs(ctx.ex))


class Fit(Contract):
    qual = D + ".fit"
    arity = 2
    cases = tuple(f"{c}, {m}" for c in CASES for m in ("pwling", "kernel"))
    props = ("C01", "C02")
    root = True

    def setup(self, S, case):
        m, n = S.size("m"), S.size("n")
        c, me = case.rsplit(", ", 1)
        return direct_obj(S, c, n, _measure=me), [S.arr(m, n, nm="X")], {}

    def modifies(self, ctx):
        i = ctx.param(0).id
        return {("attr", i, "_adjacency_matrix"), ("attr", i, "_causal_order"), ("attr", i, "_partial_orders")}

    def post(self, ctx, res):
        n = ctx.old.deref(ctx.param(1)).shape[1]
        me = ctx.param(0)
        B, s = ctx.new.attr(me, "_adjacency_matrix"), ctx.new.attr(me, "_causal_order")
        out = [("causal order lists every variable exactly once", perm(s, n)),
               ("matrix is square", And(Eq(B.shape[0], n), Eq(B.shape[1], n))),
               ("matrix respects the order", respects(B, s, n)),
               ("returns self", z3.BoolVal(isinstance(res, Ref) and res.id == me.id))]
        o = ctx.old.deref(me)
        pk = ctx.old.deref(o.attrs["_Aknw"])
        if pk is not None:
            r, c = bvars(2)
            rng = And(Le(0, r), Lt(r, n), Le(0, c), Lt(c, n))
            out.append(("forbidden paths have no coefficient", ForAll([r, c], Implies(And(rng, pkzero(pk, r, c)), B.get(r, c).is_zero()))))
        if strict(o):
            a, b = bvars(2)
            rng = And(Le(0, a), Lt(a, n), Le(0, b), Lt(b, n), Not(Eq(a, b)))
            out.append(("order follows the prior knowledge",
                        ForAll([a, b], Implies(And(rng, pair_index(pk, a, b)), Lt(s.pos(a), s.pos(b))))))
        return out

    def result(self, ctx):
        ex = ctx.ex
        n = ctx.pval(1).shape[1]
        o = ex.deref(ctx.param(0))
        a = dict(o.attrs)
        a["_adjacency_matrix"] = ex.new(ex.fresh_arr([n, n], "float", "B"))
        a["_causal_order"] = ex.new(ex.fresh(("seq", "list", "int"), "order"))
        ex.heap[ctx.param(0).id] = ObjV(o.cls, a, o.havoced)
        return ctx.param(0)

    def loop_candidates(self, L):
        out = []
        # pairs still to be respected
        pos = [(nm, loc, v) for nm, loc, v in L.arrs if v.dtype == "int" and v.rowcnt is not None]
        pos = pos or [(nm, loc, v) for nm, loc, v in L.arrs if v.dtype == "int"]
        ks = [(nm, loc, v) for nm, loc, v in L.seqs if v.ety == "int" and v.kind == "list"]
        for pn, pl, pv in pos:
            e = L.entry_value(pl)
            if not isinstance(e, ArrV) or e.rowcnt is None:
                continue
            for kn, kl, kv in ks:
                def pend(sv, pl=pl, kl=kl, e=e):
                    a, b = bvars(2)
                    K, P = sv.loc(kl), sv.loc(pl)
                    return ForAll([a, b], Implies(Lt(0, e.rowcnt(a, b)), Or(Lt(0, P.rowcnt(a, b)), K.has(a))))
                out.append((f"{pn}: a pair is pending or its first variable is in {kn}", pend))

                def done(sv, kl=kl, e=e):
                    a, b = bvars(2)
                    K = sv.loc(kl)
                    return ForAll([a, b], Implies(And(Lt(0, e.rowcnt(a, b)), K.has(b)), And(K.has(a), Lt(K.pos(a), K.pos(b)))))
                out.append((f"{pn}: {kn} follows the pairs", done))
        return out


CONTRACTS = [SearchCandidate(), SearchOrder(), SearchOrderKernel(), ExtractPartialOrders(), EstAdj(), Fit()]


class Init(Contract):
    """negative entries become 'unknown' (NaN), 0 and 1 are kept; settings are stored unchanged"""
    qual = D + ".__init__"
    arity = 5
    cases = ("no prior knowledge", "integer prior knowledge", "float prior knowledge")
    props = ("C02", "C18")
    root = True

    def setup(self, S, case):
        n, m = S.size("n"), S.size("m")
        kw = dict(apply_prior_knowledge_softly=S.ex.fbool("soft"), measure="pwling")
        if case != self.cases[0]:
            kw["prior_knowledge"] = S.arr(n, m, dtype=case.split()[0].replace("integer", "int"), nm="pk")
        return S.obj(D), [S.ex.fint("seed")], kw

    def modifies(self, ctx):
        return {("attr", ctx.param(0).id, "*")}

    def post(self, ctx, res):
        me = ctx.param(0)
        o = ctx.new.deref(me)
        out = [("soft flag kept", Eq(as_bool(o.attrs.get("_apply_prior_knowledge_softly")), ctx.param(3))),
               ("measure kept", z3.BoolVal(o.attrs.get("_measure") == "pwling"))]
        pk = ctx.old.deref(ctx.param(2))
        A = ctx.new.deref(o.attrs.get("_Aknw"))
        if pk is None:
            return out + [("no prior knowledge", z3.BoolVal(A is None))]
        r, c = bvars(2)
        rg = And(Le(0, r), Lt(r, pk.shape[0]), Le(0, c), Lt(c, pk.shape[1]))
        p, a = to_fl(pk.get(r, c)), to_fl(A.get(r, c))
        return out + [("shape kept", And(Eq(A.shape[0], pk.shape[0]), Eq(A.shape[1], pk.shape[1]))),
                      ("negative entries are unknown", ForAll([r, c], Implies(And(rg, Not(p.nan), p.v < 0), a.nan))),
                      ("other entries are kept", ForAll([r, c], Implies(And(rg, Not(p.nan), Not(p.v < 0)), And(Not(a.nan), Eq(a.v, p.v)))))]


class FitShape(Fit):
    """prior knowledge of the wrong shape is refused"""
    cases = ("prior knowledge of any shape",)
    props = ("C02", "C18")
    callable = False

    def setup(self, S, case):
        m, n, p, q = S.size("m"), S.size("n"), S.size("p"), S.size("q")
        self.dims = n, p, q
        return direct_obj(S, CASES[2], n, _Aknw=S.arr(p, q, nm="Aknw")), [S.arr(m, n, nm="X")], {}

    def post(self, ctx, res):
        n, p, q = self.dims
        return [("accepted only if the shape matches the data", And(Eq(p, n), Eq(q, n)))]

    def exc_post(self, ctx, etype, implicit):
        return None


CONTRACTS += [Init(), FitShape()]
