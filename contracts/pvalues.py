"""C16: the p-value matrix of error independence is symmetric, zero on the diagonal, and holds the HSIC p-value of the
residuals of each pair; NaN exactly for pairs that involve a variable with a NaN coefficient."""
import z3

from pyvc import models
from pyvc.values import *
from pyvc.verify import Contract
from .settings import CheckXList, CheckXListRCD, eqv
from .trusted import HsicTestGamma, hsic
from .utils import rng


SUB = models.ast.Sub()


def eye(i, j):
    if models.z3.is_expr(i) or models.z3.is_expr(j):
        return Fl(z3.If(Eq(i, j), models.z3.RealVal(1), models.z3.RealVal(0)), z3.BoolVal(False))
    return Fl(z3.RealVal(1 if i == j else 0), z3.BoolVal(False))


def residual(X, B):
    """the residuals x - Bx of every row x of X, in the two ways they can be computed: x - Bx and (I - B)x"""
    n = X.shape[1]
    e1 = ArrV(X.shape, lambda r, c: models.farith(SUB, X.get(r, c), models.dot(
        None, lambda k: B.get(c, k), lambda k: X.get(r, k), n)), "float")
    e2 = ArrV(X.shape, lambda r, c: models.dot(
        None, lambda k: models.farith(SUB, eye(c, k), B.get(c, k)), lambda k: X.get(r, k), n), "float")
    return [e1, e2]


def pval_ok(Es, p, i, j):
    """p is the p-value of columns i and j of the residuals (in either order)"""
    out = []
    for E in Es:
        col = lambda c, E=E: SeqV(E.shape[0], lambda r: E.get(r, c), "arr", "float")
        out += [eqv(p, hsic(col(i), col(j))), eqv(p, hsic(col(j), col(i)))]
    return Or(*out)


def nan_var(B, i, n):
    q, = bvars(1)
    return Exists([q], And(rng(n, q), Or(B.get(i, q).nan, B.get(q, i).nan)))


def visited(L):
    """(name, predicate(sv, a, b)) describing which pairs a < b a loop has finished"""
    out = []
    it = L.it
    if it is not None and getattr(it, "comb", None):
        ix = it.comb[2]
        out.append(("visited pairs", lambda sv, a, b: Lt(ix(a, b), sv.k)))
    elif it is not None:
        out.append(("pairs of the first k rows", lambda sv, a, b: Lt(a, sv.k)))
        out.append(("pairs of the first k columns", lambda sv, a, b: Lt(b, sv.k)))
        for nm, v in L.const_ints():
            out.append((f"rows before {nm} and the first k after it", lambda sv, a, b, v=v: Or(
                Lt(a, v), And(Eq(a, v), Lt(b, v + 1 + sv.k)))))
            out.append((f"columns before {nm} and the first k", lambda sv, a, b, v=v: Or(
                Lt(b, v), And(Eq(b, v), Lt(a, sv.k)))))
    return out


class PValues(Contract):
    """E(S-side objects) -> residual array; nans: NaN marking"""
    props = ("C16",)
    root = True
    callable = False
    arity = 2
    nans = False
    owner_q = ""
    cases = ("",)

    def setup(self, S, case):
        m, n = S.size("m"), S.size("n")
        self.B, self.n = S.arr(n, n, nm="B"), n
        b = S.d(self.B)
        if not self.nans:
            i, j = bvars(2)
            S.assume(ForAll([i, j], Implies(rng(n, i, j), Not(b.get(i, j).nan))))
        X = S.arr(m, n, nm="X")
        self.E = residual(S.d(X), b)
        return S.obj(self.qual.rsplit(".", 1)[0], _adjacency_matrix=self.B), [X], {}

    def modifies(self, ctx):
        return set()

    def get_b(self, heap):
        return heap[self.B.id]

    def vector_families(self):
        def fam(E):
            return lambda c: ((lambda r: E.get(r, c)), E.shape[0])
        return [(1, fam(E)) for E in self.E]

    def entry_ok(self, P, i, j):
        """P[i, j] and P[j, i] for i < j"""
        p, q = P.get(i, j), P.get(j, i)
        good = And(eqv(p, q), pval_ok(self.E, p, i, j))
        if not self.nans:
            return good
        b, n = self.b, self.n
        bad = Or(nan_var(b, i, n), nan_var(b, j, n))
        return And(Implies(bad, And(p.nan, q.nan)), Implies(Not(bad), good))

    def upper_ok(self, P, i, j):
        p = P.get(i, j)
        good = pval_ok(self.E, p, i, j)
        if not self.nans:
            return good
        bad = Or(nan_var(self.b, i, self.n), nan_var(self.b, j, self.n))
        return And(Implies(bad, p.nan), Implies(Not(bad), good))

    def post(self, ctx, res):
        P = ctx.new.deref(res)
        n = self.n
        self.b = self.get_b(ctx.old.heap)
        i, j = bvars(2)
        return [("square", And(Eq(P.shape[0], n), Eq(P.shape[1], n))),
                ("zero diagonal", ForAll([i], Implies(rng(n, i), P.get(i, i).is_zero()))),
                ("every pair symmetric and equal to the p-value of its residuals", ForAll([i, j], Implies(
                    And(Le(0, i), Lt(i, j), Lt(j, n)), self.entry_ok(P, i, j))))]

    def loop_candidates(self, L):
        out = []
        self.b = self.get_b(L.head.heap)
        n = self.n
        for nm, loc, v in L.arrs:
            if v.ndim != 2 or v.dtype != "float":
                continue
            out.append((f"{nm}: zero diagonal", lambda sv, l=loc: _diag0(sv.loc(l), n)))
            for vn, vis in visited(L):
                def f(sv, l=loc, vis=vis):
                    i, j = bvars(2)
                    return ForAll([i, j], Implies(And(Le(0, i), Lt(i, j), Lt(j, n), vis(sv, i, j)), self.entry_ok(sv.loc(l), i, j)))
                out.append((f"{nm}: {vn} hold their p-value", f))

                def up(sv, l=loc, vis=vis):
                    i, j = bvars(2)
                    P = sv.loc(l)
                    return ForAll([i, j], Implies(And(Le(0, i), Lt(i, j), Lt(j, n)), And(
                        Implies(vis(sv, i, j), self.upper_ok(P, i, j)), P.get(j, i).is_zero())))
                out.append((f"{nm}: {vn} hold their p-value, zero below the diagonal", up))
        return out


def _diag0(P, n):
    i, = bvars(1)
    return ForAll([i], Implies(rng(n, i), P.get(i, i).is_zero()))


class BaseP(PValues):
    qual = "lingam.base:_BaseLiNGAM.get_error_independence_p_values"


class RcdP(PValues):
    qual = "lingam.rcd:RCD.get_error_independence_p_values"
    nans = True


class ParceP(PValues):
    qual = "lingam.bottom_up_parce_lingam:BottomUpParceLiNGAM.get_error_independence_p_values"
    nans = True



class TimeP(PValues):
    """time-series models: x are the residuals of the autoregressive part, B the instantaneous effects"""
    arity = 1

    def mats(self, S, n):
        raise NotImplementedError

    def setup(self, S, case):
        m, n = S.size("m"), S.size("n")
        self.n = n
        attrs, self.b = self.mats(S, n)
        i, j = bvars(2)
        S.assume(ForAll([i, j], Implies(rng(n, i, j), Not(self.b.get(i, j).nan))))
        X = S.arr(m, n, nm="resid")
        self.E = residual(S.d(X), self.b)
        return S.obj(self.qual.rsplit(".", 1)[0], _residuals=X, **attrs), [], {}

    def get_b(self, heap):
        return self.b


class VarP(TimeP):
    qual = "lingam.var_lingam:VARLiNGAM.get_error_independence_p_values"

    def mats(self, S, n):
        A = S.arr(S.size("L", 1), n, n, nm="Bs")
        a = S.d(A)
        return {"_adjacency_matrices": A}, ArrV((n, n), lambda i, j: a.get(0, i, j), "float")


class VarmaP(TimeP):
    qual = "lingam.varma_lingam:VARMALiNGAM.get_error_independence_p_values"

    def mats(self, S, n):
        A, W = S.arr(S.size("L", 1), n, n, nm="psis"), S.arr(S.size("Q"), n, n, nm="omegas")
        a = S.d(A)
        return {"_adjacency_matrices": (A, W)}, ArrV((n, n), lambda i, j: a.get(0, i, j), "float")


class GroupP(PValues):
    """one matrix per group"""
    helper = None

    def setup(self, S, case):
        n = S.size("n")
        self.n = n
        Xs = S.seq(ety=("arr", 2, "float"), nm="Xs")
        x = S.d(Xs)
        k, i, j = bvars(3)
        self.Bs = S.seq(ety=("arr", 2, "float"), nm="Bs", n=x.n)
        bs = S.d(self.Bs)
        S.assume(ForAll([k], Implies(rng(x.n, k), And(Eq(bs.get(k).shape[0], n), Eq(bs.get(k).shape[1], n)))))
        if not self.nans:
            S.assume(ForAll([k, i, j], Implies(And(rng(x.n, k), rng(n, i, j)), Not(bs.get(k).get(i, j).nan))))
        S.assume(ForAll([k], Implies(rng(x.n, k), Eq(x.get(k).shape[1], n))))
        self.x, self.bs = x, bs
        o = S.obj(self.qual.rsplit(".", 1)[0], _adjacency_matrices=self.Bs, _n_features=n)
        self.o = o
        return o, [Xs], {}

    def modifies(self, ctx):
        return {("attr", self.o.id, "_n_features"), ("attr", self.o.id, "_k")}

    def vector_families(self):
        def fam(f):
            def g(d, c):
                E = residual(self.x.get(d), self.bs.get(d))[f]
                return (lambda r: E.get(r, c)), E.shape[0]
            return g
        return [(2, fam(0)), (2, fam(1))]

    def entry(self, P, d, i, j):
        p, q = P.get(d, i, j), P.get(d, j, i)
        b, n = self.bs.get(d), self.n
        good = And(eqv(p, q), pval_ok(residual(self.x.get(d), b), p, i, j))
        if not self.nans:
            return good
        bad = Or(nan_var(b, i, n), nan_var(b, j, n))
        return And(Implies(bad, And(p.nan, q.nan)), Implies(Not(bad), good))

    def post(self, ctx, res):
        P, n = ctx.new.deref(res), self.n
        d, i, j = bvars(3)
        G = self.x.n
        return [("one square matrix per group", And(Eq(P.shape[0], G), Eq(P.shape[1], n), Eq(P.shape[2], n))),
                ("zero diagonal", ForAll([d, i], Implies(And(rng(G, d), rng(n, i)), P.get(d, i, i).is_zero()))),
                ("every pair symmetric and equal to the p-value of its residuals", ForAll([d, i, j], Implies(
                    And(rng(G, d), Le(0, i), Lt(i, j), Lt(j, n)), self.entry(P, d, i, j))))]

    def loop_candidates(self, L):
        out, n, G = [], self.n, self.x.n
        for nm, loc, v in L.arrs:
            if v.ndim == 3 and v.dtype == "float":
                def diag(sv, l=loc):
                    d, i = bvars(2)
                    return ForAll([d, i], Implies(And(rng(G, d), rng(n, i)), sv.loc(l).get(d, i, i).is_zero()))
                out.append((f"{nm}: zero diagonal", diag))
                if getattr(L.it, "comb", None):
                    for en, e in L.const_ints():
                        def f2(sv, l=loc, e=e):
                            d, i, j = bvars(3)
                            return ForAll([d, i, j], Implies(And(rng(G, d), Le(0, i), Lt(i, j), Lt(j, n), Lt(d, e)),
                                                             self.entry(sv.loc(l), d, i, j)))

                        def f3(sv, l=loc, e=e, ix=L.it.comb[2]):
                            i, j = bvars(2)
                            return Implies(rng(G, e), ForAll([i, j], Implies(And(
                                Le(0, i), Lt(i, j), Lt(j, n), Lt(ix(i, j), sv.k)), self.entry(sv.loc(l), e, i, j))))
                        out.append((f"{nm}: groups before {en}", f2))
                        out.append((f"{nm}: group {en}, the visited pairs", f3))
                else:
                    def f1(sv, l=loc):
                        d, i, j = bvars(3)
                        return ForAll([d, i, j], Implies(And(rng(G, d), Lt(d, sv.k), Le(0, i), Lt(i, j), Lt(j, n)), self.entry(sv.loc(l), d, i, j)))
                    out.append((f"{nm}: first k groups", f1))
        return out


class MGP(GroupP):
    qual = "lingam.multi_group_direct_lingam:MultiGroupDirectLiNGAM.get_error_independence_p_values"


class MGRcdP(GroupP):
    qual = "lingam.multi_group_rcd:MultiGroupRCD.get_error_independence_p_values"
    nans = True


class LongP(PValues):
    """one matrix per time point after the first, whose entries are all NaN"""
    qual = "lingam.longitudinal_lingam:LongitudinalLiNGAM.get_error_independence_p_values"
    arity = 1

    def setup(self, S, case):
        m, n, T, L = S.size("m"), S.size("n"), S.size("T", 1), S.size("L", 1)
        self.n, self.T = n, T
        A = S.arr(T, L, n, n, nm="Bs")
        res = S.arr(T, m, n, nm="resid")
        a, r = S.d(A), S.d(res)
        d, i, j = bvars(3)
        self.b = lambda d: ArrV((n, n), lambda i, j: a.get(d, 0, i, j), "float")
        self.x = lambda d: ArrV((m, n), lambda i, j: r.get(d, i, j), "float")
        return S.obj(self.qual.rsplit(".", 1)[0], _adjacency_matrices=A, _residuals=res, _T=T, _n=m, _p=n), [], {}

    def res(self, d):
        return residual(self.x(d), self.b(d))

    def vector_families(self):
        def fam(f):
            def g(d, c):
                E = self.res(d)[f]
                return (lambda r: E.get(r, c)), E.shape[0]
            return g
        return [(2, fam(0)), (2, fam(1))]

    def entry(self, P, d, i, j):
        p, q = P.get(d, i, j), P.get(d, j, i)
        return And(eqv(p, q), pval_ok(self.res(d), p, i, j))

    def post(self, ctx, res):
        P, n, T = ctx.new.deref(res), self.n, self.T
        d, i, j = bvars(3)
        return [("one square matrix per time point", And(Eq(P.shape[0], T), Eq(P.shape[1], n), Eq(P.shape[2], n))),
                ("nothing at the first time point", ForAll([i, j], Implies(rng(n, i, j), P.get(0, i, j).nan))),
                ("zero diagonal", ForAll([d, i], Implies(And(Le(1, d), Lt(d, T), rng(n, i)), P.get(d, i, i).is_zero()))),
                ("every pair symmetric and equal to the p-value of its residuals", ForAll([d, i, j], Implies(
                    And(Le(1, d), Lt(d, T), Le(0, i), Lt(i, j), Lt(j, n)), self.entry(P, d, i, j))))]

    def loop_candidates(self, L):
        out, n, T = [], self.n, self.T
        comb = getattr(L.it, "comb", None)
        for nm, loc, v in L.arrs:
            if v.dtype != "float":
                continue
            if v.ndim == 3 and not comb:
                for off in (0, 1):
                    def diag(sv, l=loc, off=off):
                        d, i = bvars(2)
                        return ForAll([d, i], Implies(And(Le(1, d), Lt(d, sv.k + off), rng(n, i)), sv.loc(l).get(d, i, i).is_zero()))

                    def vals(sv, l=loc, off=off):
                        d, i, j = bvars(3)
                        return ForAll([d, i, j], Implies(And(Le(1, d), Lt(d, sv.k + off), Le(0, i), Lt(i, j), Lt(j, n)), self.entry(sv.loc(l), d, i, j)))
                    out += [(f"{nm}: zero diagonals up to k+{off}", diag), (f"{nm}: p-values up to k+{off}", vals)]

                def first(sv, l=loc):
                    i, j = bvars(2)
                    return ForAll([i, j], Implies(rng(n, i, j), sv.loc(l).get(0, i, j).nan))
                out.append((f"{nm}: first time point NaN", first))
                for f in range(2):
                    def resid(sv, l=loc, f=f):
                        d, i, j = bvars(3)
                        return ForAll([d, i, j], Implies(And(Le(0, d), Lt(d, sv.k), rng(self.x(0).shape[0], i), rng(n, j)),
                                                         eqv(sv.loc(l).get(d, i, j), self.res(d)[f].get(i, j))))
                    out.append((f"{nm}: residuals, form {f}", resid))
            if v.ndim == 2 and comb:
                out.append((f"{nm}: zero diagonal", lambda sv, l=loc: _diag0(sv.loc(l), n)))
                for en, e in L.const_ints():
                    def f3(sv, l=loc, e=e, ix=comb[2]):
                        i, j = bvars(2)
                        P = sv.loc(l)
                        return ForAll([i, j], Implies(And(Le(0, i), Lt(i, j), Lt(j, n), Lt(ix(i, j), sv.k)), And(
                            eqv(P.get(i, j), P.get(j, i)), pval_ok(self.res(e), P.get(i, j), i, j))))
                    out.append((f"{nm}: visited pairs at time {en}", f3))
        return out


CONTRACTS = [HsicTestGamma(), CheckXList(), CheckXListRCD(), BaseP(), RcdP(), ParceP(), VarP(), VarmaP(), MGP(), MGRcdP(), LongP()]
