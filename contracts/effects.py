"""C13: the estimated total effect is the coefficient of the source in the least-squares regression of the destination
on the source and its parents; warnings exactly when the order is reversed (or the source is confounded)."""
import z3

from pyvc import models
from pyvc.values import *
from pyvc.verify import Contract
from .settings import CheckXList, CheckXListRCD, eqv
from .trusted import TotalEffect, total_effect
from .utils import rng


def parent(B, src, n):
    """q is a parent of src"""
    def p(q):
        b = B.get(src, q)
        return And(Le(0, q), Lt(q, n), Not(b.nan), Not(b.is_zero()))
    return p


def regressors(B, src, n):
    p = parent(B, src, n)
    return lambda q: Or(Eq(q, src), p(q))


def expected(X, B, src, dst, n):
    y = SeqV(X.shape[0], lambda r: X.get(r, dst), "arr", "float")
    return models.least_squares(X, src, regressors(B, src, n), y)


def row_nan(B, src, n):
    q, = bvars(1)
    return Exists([q], And(rng(n, q), B.get(src, q).nan))


def permutation(S, s, n):
    v, = bvars(1)
    S.assume(Eq(s.n, n))
    S.assume(ForAll([v], Eq(as_bool(s.has(v)), as_bool(And(Le(0, v), Lt(v, n))))))


class Effect(Contract):
    props = ("C13",)
    root = True
    callable = False
    arity = 4
    nans = False
    group = False
    loop_warnings_ok = False

    def order(self, S, n):
        o = S.seq(nm="order")
        permutation(S, S.d(o), n)
        so = S.d(o)
        self.reversed = lambda: Lt(so.pos(self.dst), so.pos(self.src))
        return {"_causal_order": o}

    def setup(self, S, case):
        n = S.size("n", 1)
        self.n = n
        self.src, self.dst = S.ex.fint("from"), S.ex.fint("to")
        S.assume(rng(n, self.src, self.dst))
        attrs = self.order(S, n)
        i, = bvars(1)
        if self.group:
            X = S.seq(ety=("arr", 2, "float"), nm="Xs")
            x = S.d(X)
            A = S.seq(ety=("arr", 2, "float"), nm="Bs", n=x.n)
            b = S.d(A)
            k, j = bvars(2)
            S.assume(ForAll([k], Implies(rng(x.n, k), And(Eq(b.get(k).shape[0], n), Eq(b.get(k).shape[1], n), Eq(x.get(k).shape[1], n)))))
            S.assume(ForAll([k, i], Implies(And(rng(x.n, k), rng(n, i)), Or(b.get(k).get(i, i).nan, b.get(k).get(i, i).is_zero()))))
            if not self.nans:
                S.assume(ForAll([k, i, j], Implies(And(rng(x.n, k), rng(n, i, j)), Not(b.get(k).get(i, j).nan))))
            attrs.update(_adjacency_matrices=A, _n_features=n)
        else:
            X, A = S.arr(S.size("m"), n, nm="X"), S.arr(n, n, nm="B")
            x, b = S.d(X), S.d(A)
            S.assume(ForAll([i], Implies(rng(n, i), Or(b.get(i, i).nan, b.get(i, i).is_zero()))))
            if not self.nans:
                j, = bvars(1)
                S.assume(ForAll([i, j], Implies(rng(n, i, j), Not(b.get(i, j).nan))))
            attrs.update(_adjacency_matrix=A)
        self.x, self.b = x, b
        self.o = S.obj(self.qual.rsplit(".", 1)[0], **attrs)
        return self.o, [X, self.src, self.dst], {}

    def modifies(self, ctx):
        return {("attr", self.o.id, "_n_features"), ("attr", self.o.id, "_k")} if self.group else set()

    def regressor_sets(self):
        if self.group:
            return [(1, lambda d: regressors(self.b.get(d), self.src, self.n))]
        return [(0, lambda: regressors(self.b, self.src, self.n))]

    def want(self, d=None):
        if d is None:
            return expected(self.x, self.b, self.src, self.dst, self.n)
        return expected(self.x.get(d), self.b.get(d), self.src, self.dst, self.n)

    def warned(self, ctx):
        if "loop" in ctx.events and not self.loop_warnings_ok:
            raise Unsupported("warnings inside a loop")
        return sum(1 for e in ctx.events if e == "warn")

    def post(self, ctx, res):
        w = self.warned(ctx)
        out = []
        rev = as_bool(self.reversed())
        if self.group:
            r = ctx.new.deref(res)
            k, = bvars(1)
            out.append(("one effect per group", Eq(r.n, self.x.n)))
            out.append(("each the coefficient of the source given its parents", True if isinstance(r.n, int) and r.n == 0 else ForAll(
                [k], Implies(And(rng(self.x.n, k)), eqv(r.get(k), self.want(k))))))
            out.append(("a warning exactly when the order is reversed", Eq(z3.BoolVal(w > 0), rev)))
            return out
        r = models.to_fl(ctx.new.deref(res))
        if self.nans:
            bad = as_bool(row_nan(self.b, self.src, self.n))
            out.append(("NaN when the source is confounded, else the coefficient of the source given its parents", And(
                Implies(bad, r.nan), Implies(Not(bad), eqv(r, self.want())))))
            out.append(("a warning for a reversed order and one for a confounded source", Eq(
                w, z3.If(rev, 1, 0) + z3.If(bad, 1, 0))))
        else:
            out.append(("the coefficient of the source given its parents", eqv(r, self.want())))
            out.append(("a warning exactly when the order is reversed", Eq(z3.BoolVal(w > 0), rev)))
        return out

    def loop_candidates(self, L):
        out = []
        if not self.group:
            return out
        for nm, loc, v in L.seqs:
            if v.ety in ("float", None):
                def f(sv, l=loc):
                    s = sv.loc(l)
                    if isinstance(s.n, int) and s.n == 0:
                        return Eq(sv.k, 0)
                    k, = bvars(1)
                    return And(Eq(s.n, sv.k), ForAll([k], Implies(rng(s.n, k), eqv(s.get(k), self.want(k)))))
                out.append((f"{nm}: effects of the first k groups", f))

                def g(sv, l=loc):
                    s = sv.loc(l)
                    return Eq(s.n, sv.k)
                out.append((f"{nm}: one effect per finished group", g))
        return out


class BaseEffect(Effect):
    qual = "lingam.base:_BaseLiNGAM.estimate_total_effect"


class RcdEffect(Effect):
    qual = "lingam.rcd:RCD.estimate_total_effect"
    nans = True

    def order(self, S, n):
        anc = S.seq(ety=("set", "int"), nm="anc", n=n)
        a = S.d(anc)
        self.reversed = lambda: a.get(self.src).mem(self.dst)
        return {"_ancestors_list": anc}


class MGEffect(Effect):
    qual = "lingam.multi_group_direct_lingam:MultiGroupDirectLiNGAM.estimate_total_effect"
    group = True


class MGRcdEffect(Effect):
    """the effects of the groups before the first with a confounded source (none of them, normally)"""
    qual = "lingam.multi_group_rcd:MultiGroupRCD.estimate_total_effect"
    group = True
    nans = True
    order = RcdEffect.order

    def post(self, ctx, res):
        r = ctx.new.deref(res)
        k, q = bvars(2)
        G = self.x.n
        rev = as_bool(self.reversed())
        conf = lambda d: row_nan(self.b.get(d), self.src, self.n)
        anyconf = as_bool(Exists([q], And(rng(G, q), conf(q))))
        w = self.warned(ctx)
        one = And(Lt(r.n, G), conf(r.n)) if not (isinstance(r.n, int) and r.n == 0) else conf(0)
        return [("the groups before the first confounded one", And(
            Le(0, r.n), Le(r.n, G), ForAll([k], Implies(And(Le(0, k), Lt(k, r.n)), Not(conf(k)))),
            Implies(Lt(r.n, G), one))),
            ("each the coefficient of the source given its parents", True if isinstance(r.n, int) and r.n == 0 else ForAll(
                [k], Implies(rng(r.n, k), eqv(r.get(k), self.want(k))))),
            ("a warning for a reversed order and one for a confounded source", Eq(w, z3.If(rev, 1, 0) + z3.If(anyconf, 1, 0)))]

    def loop_candidates(self, L):
        def clean(sv):
            k, = bvars(1)
            return ForAll([k], Implies(And(Le(0, k), Lt(k, sv.k)), Not(row_nan(self.b.get(k), self.src, self.n))))
        return super().loop_candidates(L) + [("finished groups are not confounded", clean)]


class ParceEffect(Effect):
    """causal_order_ is a list of variables and, possibly, one leading block of unordered variables"""
    qual = "lingam.bottom_up_parce_lingam:BottomUpParceLiNGAM.estimate_total_effect"
    nans = True
    cases = ("block first", "no block")

    def setup(self, S, case):
        self.case = case
        return super().setup(S, case)

    def order(self, S, n):
        if self.case == "no block":
            return super().order(S, n)
        block, tail = S.seq(nm="block"), S.seq(nm="tail")
        b, t = S.d(block), S.d(tail)
        v, = bvars(1)
        S.assume(Le(1, b.n))
        S.assume(ForAll([v], And(Eq(as_bool(Or(b.has(v), t.has(v))), as_bool(And(Le(0, v), Lt(v, n)))), Not(And(b.has(v), t.has(v))))))
        o = S.ex.new(SeqV(t.n + 1, lambda i: AltV(Eq(i, 0), block, t.get(i - 1)), "list", "opaque"))
        place = lambda v: z3.If(as_bool(b.has(v)), 0, 1 + t.pos(v))
        self.reversed = lambda: Lt(place(self.dst), place(self.src))
        return {"_causal_order": o}


class Matrix:
    """effect computed from the matrix"""
    arity = 3

    def setup(self, S, case):
        o, args, kw = super().setup(S, case)
        return o, args[1:], kw

    def regressor_sets(self):
        return []

    def want(self, d=None):
        return total_effect(self.b if d is None else self.b.get(d), self.src, self.dst)


class RcdEffect2(Matrix, RcdEffect):
    qual = "lingam.rcd:RCD.estimate_total_effect2"


class ParceEffect2(Matrix, ParceEffect):
    qual = "lingam.bottom_up_parce_lingam:BottomUpParceLiNGAM.estimate_total_effect2"


class MGEffect2(Matrix, MGEffect):
    qual = "lingam.multi_group_direct_lingam:MultiGroupDirectLiNGAM.estimate_total_effect2"


class MGRcdEffect2(Matrix, MGRcdEffect):
    qual = "lingam.multi_group_rcd:MultiGroupRCD.estimate_total_effect2"


CONTRACTS = [CheckXList(), CheckXListRCD(), TotalEffect(), BaseEffect(), RcdEffect(), MGEffect(), MGRcdEffect(), ParceEffect(),
             RcdEffect2(), ParceEffect2(), MGEffect2(), MGRcdEffect2()]
