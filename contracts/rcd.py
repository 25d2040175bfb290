"""C06: RCD ancestor sets, parents, hidden common causes and the matrix agree with each other."""
import z3

from pyvc import models
from pyvc.values import *
from pyvc.verify import Contract
from .settings import eqv
from .utils import rng


def set_list(s, n):
    """a list of n sets of variable indices"""
    return isinstance(s, SeqV) and isinstance(s.get(0), SetV)


def within(s, n):
    i, v = bvars(2)
    return ForAll([i, v], Implies(And(rng(n, i), s.get(i).mem(v)), And(Le(0, v), Lt(v, n))))


def irreflexive(s, n):
    i, = bvars(1)
    return ForAll([i], Implies(rng(n, i), Not(s.get(i).mem(i))))


def antisym(s, n):
    i, j = bvars(2)
    return ForAll([i, j], Implies(And(rng(n, i, j), s.get(i).mem(j)), Not(s.get(j).mem(i))))


def symmetric(s, n):
    i, j = bvars(2)
    return ForAll([i, j], Implies(And(rng(n, i, j), s.get(i).mem(j)), s.get(j).mem(i)))


def subset(a, b, n):
    i, v = bvars(2)
    return ForAll([i, v], Implies(And(rng(n, i), a.get(i).mem(v)), b.get(i).mem(v)))


def disjoint(a, b, n):
    i, v = bvars(2)
    return ForAll([i, v], Implies(And(rng(n, i), a.get(i).mem(v)), Not(Or(b.get(i).mem(v), b.get(v).mem(i)))))


class PureBool(Contract):
    """any truth value, nothing modified"""
    props = ("C06", "C14")

    def setup(self, S, case):
        m, n = S.size("m"), S.size("n")
        o = S.obj(self.qual.rsplit(".", 1)[0])
        return o, self.params(S, m, n), {}

    def modifies(self, ctx):
        return set()

    def post(self, ctx, res):
        return []

    def result(self, ctx):
        return ctx.ex.fbool("b")


class IndepOfResid(PureBool):
    qual = "lingam.rcd:RCD._is_independent_of_resid"
    arity = 4

    def params(self, S, m, n):
        return [S.arr(m, n, nm="Y"), S.ex.fint("xi"), S.seq(nm="xj_list")]


class Indep(PureBool):
    qual = "lingam.rcd:RCD._is_independent"
    arity = 3

    def params(self, S, m, n):
        return [S.arr(m, 1, nm="a"), S.arr(m, 1, nm="b")]


class MLHSICR(PureBool):
    """nothing modified; residuals and coefficients are arbitrary and may share memory with the data"""
    qual = "lingam.rcd:RCD._get_resid_and_coef_by_MLHSICR"
    arity = 4

    def params(self, S, m, n):
        return [S.arr(m, n, nm="Y"), S.ex.fint("xi"), S.seq(nm="xj_list")]

    def result(self, ctx):
        Y = ctx.param(1)
        while isinstance(Y, ElemRef):
            Y = Y.base
        al = frozenset({Y.id})
        return (Opaque("resid", al), Opaque("coefs"))


class NonGauss(PureBool):
    qual = "lingam.rcd:RCD._is_non_gaussianity"
    arity = 3

    def params(self, S, m, n):
        return [S.arr(m, n, nm="Y"), S.seq(nm="U")]


class Correlated(PureBool):
    qual = "lingam.rcd:RCD._is_correlated"
    arity = 3

    def params(self, S, m, n):
        return [S.seq("arr", "float", nm="a", n=m), S.seq("arr", "float", nm="b", n=m)]


class Ancestors(Contract):
    qual = "lingam.rcd:RCD._extract_ancestors"
    props = ("C06",)
    root = False
    arity = 2

    def setup(self, S, case):
        m, n = S.size("m"), S.size("n")
        self.n = n
        o = S.obj("lingam.rcd:RCD", _max_explanatory_num=S.ex.fint("maxexp"), _MLHSICR=S.ex.fbool("mlhsicr"))
        X = S.arr(m, n, nm="X")
        return o, [X], {}

    def nf(self, ctx):
        return ctx.pval(1).shape[1]

    def modifies(self, ctx):
        return set()

    def post(self, ctx, res):
        M = ctx.new.deref(res)
        n = self.nf(ctx)
        return [("one set per variable", Eq(M.n, n)), ("valid indices", within(M, n)), ("never itself", irreflexive(M, n)),
                ("never both ways", antisym(M, n))]

    def result(self, ctx):
        return ctx.ex.new(ctx.ex.fresh(("seq", "list", ("set",)), "M", n=self.nf(ctx)))

    def loop_candidates(self, L):
        out = []
        n = self.n
        for nm, loc, v in L.seqs:
            if v.ety == ("set",):
                for what, f in (("within", within), ("irreflexive", irreflexive), ("antisymmetric", antisym)):
                    out.append((f"{nm}: {what}", lambda sv, l=loc, f=f: f(sv.loc(l), n)))
        Ms = L.const_values(lambda d: isinstance(d, SeqV) and d.ety == ("set",))
        Us = [d for _, d in L.const_values(lambda d: isinstance(d, SeqV) and d.ety == "int")]
        for nm, loc, v in L.seqs:
            if v.ety == "int":
                for mn, M in Ms:
                    for U in Us:
                        def sinks(sv, l=loc, M=M, U=U):
                            s = sv.loc(l)
                            if isinstance(s.n, int) and s.n == 0:
                                return True
                            a, b = bvars(2)
                            return ForAll([a, b], Implies(And(s.has(a), U.has(b), Not(Eq(a, b))), Not(M.get(b).mem(a))))
                        out.append((f"{nm}: ancestors of no other variable of the subset", sinks))
        return out


class Parents(Contract):
    """parents are ancestors"""
    qual = "lingam.rcd:RCD._extract_parents"
    props = ("C06", "C14")
    arity = 3

    def setup(self, S, case):
        m, n = S.size("m"), S.size("n")
        o = S.obj(self.qual.rsplit(".", 1)[0], _n_features=n)
        return o, [S.arr(m, n, nm="X"), S.seq(ety=("set",), nm="M", n=n)], {}

    def nf(self, ctx):
        return ctx.pval(1).shape[1]

    def modifies(self, ctx):
        return set()

    def pre(self, ctx):
        M = ctx.pval(2)
        n = self.nf(ctx)
        self.n, self.M = n, M
        return [("one set per variable", Eq(M.n, n)), ("valid indices", within(M, n))]

    def post(self, ctx, res):
        P, M, n = ctx.new.deref(res), ctx.old.deref(ctx.param(2)), self.nf(ctx)
        return [("one set per variable", Eq(P.n, n)), ("parents are ancestors", subset(P, M, n))]

    def result(self, ctx):
        return ctx.ex.new(ctx.ex.fresh(("seq", "list", ("set",)), "P", n=self.nf(ctx)))

    def loop_candidates(self, L):
        return [(f"{nm}: subsets of the ancestors", lambda sv, l=loc: subset(sv.loc(l), self.M, self.n))
                for nm, loc, v in L.seqs if v.ety == ("set",)]


class Confounded(Contract):
    """symmetric pairs of different variables that are not parent and child"""
    qual = "lingam.rcd:RCD._extract_vars_sharing_confounders"
    props = ("C06", "C14")
    arity = 3

    def setup(self, S, case):
        m, n = S.size("m"), S.size("n")
        o = S.obj(self.qual.rsplit(".", 1)[0], _n_features=n)
        return o, [S.arr(m, n, nm="X"), S.seq(ety=("set",), nm="P", n=n)], {}

    nf = Parents.nf

    def modifies(self, ctx):
        return set()

    def pre(self, ctx):
        P, n = ctx.pval(2), self.nf(ctx)
        self.n, self.P = n, P
        return [("one set per variable", Eq(P.n, n)), ("valid indices", within(P, n))]

    def facts(self, C, P, n):
        return [("valid indices", within(C, n)), ("never itself", irreflexive(C, n)), ("symmetric", symmetric(C, n)),
                ("not parent and child", disjoint(C, P, n))]

    def post(self, ctx, res):
        C, P, n = ctx.new.deref(res), ctx.old.deref(ctx.param(2)), self.nf(ctx)
        return [("one set per variable", Eq(C.n, n))] + self.facts(C, P, n)

    def result(self, ctx):
        return ctx.ex.new(ctx.ex.fresh(("seq", "list", ("set",)), "C", n=self.nf(ctx)))

    def loop_candidates(self, L):
        out = []
        for nm, loc, v in L.seqs:
            if v.ety == ("set",):
                for i, (what, _) in enumerate(self.facts(v, self.P, self.n)):
                    out.append((f"{nm}: {what}", lambda sv, l=loc, i=i: self.facts(sv.loc(l), self.P, self.n)[i][1]))
        return out


class Matrix(Contract):
    """NaN exactly for the confounded pairs, the least-squares coefficient of each parent, zero elsewhere"""
    qual = "lingam.rcd:RCD._estimate_adjacency_matrix"
    props = ("C06", "C14")
    arity = 4
    root = True
    stores = True

    def setup(self, S, case):
        m, n = S.size("m"), S.size("n")
        o = S.obj(self.qual.rsplit(".", 1)[0], _n_features=n)
        return o, [S.arr(m, n, nm="X"), S.seq(ety=("set",), nm="P", n=n), S.seq(ety=("set",), nm="C", n=n)], {}

    def nf(self, ctx):
        return ctx.pval(1).shape[1]

    def modifies(self, ctx):
        return {("attr", ctx.param(0).id, "_adjacency_matrix")} if self.stores else set()

    def pre(self, ctx):
        X, P, C, n = ctx.pval(1), ctx.pval(2), ctx.pval(3), self.nf(ctx)
        self.x, self.P, self.C, self.n = X, P, C, n
        return [("columns", Eq(X.shape[1], n)), ("one set per variable", And(Eq(P.n, n), Eq(C.n, n))), ("valid indices", And(within(P, n), within(C, n)))]

    def regressor_sets(self):
        return [(1, lambda i: self.P.get(i).mem)]

    def want(self, X, P, C, i, j, conf=True):
        y = SeqV(X.shape[0], lambda r: X.get(r, i), "arr", "float")
        w = merge(as_bool(P.get(i).mem(j)), models.least_squares(X, j, P.get(i).mem, y), Fl(z3.RealVal(0), False))
        return merge(as_bool(C.get(i).mem(j)), Fl(z3.RealVal(0), True), w) if conf else w

    def post(self, ctx, res):
        B = ctx.new.attr(ctx.param(0), "_adjacency_matrix") if self.stores else ctx.new.deref(res)
        X, P, C, n = [ctx.old.deref(ctx.param(i)) for i in (1, 2, 3)] + [self.nf(ctx)]
        i, j = bvars(2)
        out = [("square", And(Eq(B.shape[0], n), Eq(B.shape[1], n))),
               ("NaN for confounded pairs, least-squares coefficients of the parents, zero elsewhere", ForAll([i, j], Implies(
                   rng(n, i, j), eqv(B.get(i, j), self.want(X, P, C, i, j)))))]
        if self.stores:
            out.append(("returns itself", z3.BoolVal(isinstance(res, Ref) and res.id == ctx.param(0).id)))
        return out

    def result(self, ctx):
        ex, n = ctx.ex, self.nf(ctx)
        B = ex.new(ex.fresh_arr([n, n], "float", "B"))
        if not self.stores:
            return B
        me = ctx.param(0)
        o = ex.deref(me)
        ex.heap[me.id] = ObjV(o.cls, dict(o.attrs, _adjacency_matrix=B), o.havoced)
        return me

    def loop_candidates(self, L):
        out = []
        n = self.n
        X, P, C = self.x, self.P, self.C
        for nm, loc, v in L.arrs:
            if v.ndim != 2 or v.dtype != "float":
                continue
            e = L.entry_value(loc)

            def rows(sv, l=loc, conf=False):
                i, j = bvars(2)
                B = sv.loc(l)
                return ForAll([i, j], Implies(rng(n, i, j), eqv(B.get(i, j), merge(
                    Lt(i, sv.k), self.want(X, P, C, i, j, conf), self.want(X, P, C, i, j, False) if conf else Fl(z3.RealVal(0), False)))))
            out.append((f"{nm}: finished rows hold the coefficients", rows))
            out.append((f"{nm}: finished rows hold the confounded pairs", lambda sv, f=rows: f(sv, conf=True)))
            sq = L.it.seq if L.it is not None else None
            if sq is None or not isinstance(e, ArrV):
                continue
            for cn, xi in L.const_ints():
                for conf in (False, True):
                    def cells(sv, l=loc, e=e, xi=xi, conf=conf):
                        i, j = bvars(2)
                        done = And(Eq(i, xi), sq.has(j), Lt(sq.pos(j), sv.k))
                        new = Fl(z3.RealVal(0), True) if conf else self.want(X, P, C, i, j, False)
                        return ForAll([i, j], Implies(rng(n, i, j), eqv(sv.loc(l).get(i, j), merge(done, new, e.get(i, j)))))
                    out.append((f"{nm}: finished {'pairs' if conf else 'parents'} of row {cn}", cells))
        return out


class Fit(Contract):
    qual = "lingam.rcd:RCD.fit"
    props = ("C06", "C14")
    arity = 2
    root = True
    callable = False

    def setup(self, S, case):
        m, n = S.size("m"), S.size("n")
        self.o = S.obj("lingam.rcd:RCD", _max_explanatory_num=S.ex.fint("maxexp"), _MLHSICR=S.ex.fbool("mlhsicr"),
                       _ancestors_list=None, _adjacency_matrix=None)
        self.n = n
        return self.o, [S.arr(m, n, nm="X")], {}

    def modifies(self, ctx):
        return {("attr", self.o.id, "_ancestors_list"), ("attr", self.o.id, "_adjacency_matrix")}

    def post(self, ctx, res):
        M = ctx.new.attr(self.o, "_ancestors_list")
        B = ctx.new.attr(self.o, "_adjacency_matrix")
        return [("returns itself", z3.BoolVal(isinstance(res, Ref) and res.id == self.o.id))] + consistent(M, B, self.n)


def consistent(M, B, n):
    i, j = bvars(2)
    b = B.get(i, j)
    return [("one ancestor set per variable", Eq(M.n, n)), ("valid indices", within(M, n)), ("never itself", irreflexive(M, n)),
            ("never both ways", antisym(M, n)), ("square matrix", And(Eq(B.shape[0], n), Eq(B.shape[1], n))),
            ("NaN pairs are symmetric", ForAll([i, j], Implies(And(rng(n, i, j), b.nan), B.get(j, i).nan))),
            ("zero diagonal", ForAll([i], Implies(rng(n, i), And(Not(B.get(i, i).nan), B.get(i, i).is_zero())))),
            ("finite nonzero coefficients come from ancestors", ForAll([i, j], Implies(
                And(rng(n, i, j), Not(b.nan), Not(b.is_zero())), M.get(i).mem(j))))]


# ---------------------------------------------------------------- multi-group
def datasets(S, n):
    X = S.seq(ety=("arr", 2, "float"), nm="Xs")
    x = S.d(X)
    k, = bvars(1)
    S.assume(ForAll([k], Implies(rng(x.n, k), Eq(x.get(k).shape[1], n))))
    return X


class Group:
    def nf(self, ctx):
        return ctx.old.attr(ctx.param(0), "_n_features") if ctx.old is not None else ctx.ex.deref(ctx.param(0)).attrs["_n_features"]

    def data(self, S, m, n):
        return datasets(S, n)

    def pre(self, ctx):
        o = ctx.ex.deref(ctx.param(0))
        if "_n_features" not in o.attrs:
            raise Unsupported("number of features not known")
        return super().pre(ctx)


MG = "lingam.multi_group_rcd:MultiGroupRCD."


class MGIndep(PureBool):
    qual = MG + "_is_independent"
    arity = 4

    def params(self, S, m, n):
        return [S.seq(ety=("seq", "arr", "float"), nm="R"), datasets(S, n), S.ex.fint("xj")]


class MGMLHSICR(MLHSICR):
    qual = MG + "_get_resid_and_coef_by_MLHSICR"


class MGIndepOfResid(PureBool):
    qual = MG + "_is_independent_of_resid"
    arity = 4

    def params(self, S, m, n):
        return [datasets(S, n), S.ex.fint("xi"), S.seq(nm="xj_list")]


class MGNonGauss(PureBool):
    qual = MG + "_is_non_gaussianity"
    arity = 3

    def params(self, S, m, n):
        return [datasets(S, n), S.seq(nm="U")]


class MGCorrelated(MGNonGauss):
    qual = MG + "_is_correlated"


class MGAncestors(Group, Ancestors):
    qual = MG + "_extract_ancestors"

    def setup(self, S, case):
        n = S.size("n")
        self.n = n
        o = S.obj(MG[:-1], _max_explanatory_num=S.ex.fint("maxexp"), _MLHSICR=S.ex.fbool("mlhsicr"), _n_features=n)
        return o, [datasets(S, n)], {}


class MGParents(Group, Parents):
    qual = MG + "_extract_parents"

    def setup(self, S, case):
        n = S.size("n")
        return S.obj(MG[:-1], _n_features=n), [datasets(S, n), S.seq(ety=("set",), nm="M", n=n)], {}


class MGConfounded(Group, Confounded):
    qual = MG + "_extract_vars_sharing_confounders"

    def setup(self, S, case):
        n = S.size("n")
        return S.obj(MG[:-1], _n_features=n), [datasets(S, n), S.seq(ety=("set",), nm="P", n=n)], {}


class MGMatrix(Group, Matrix):
    qual = MG + "_estimate_adjacency_matrix"
    stores = False


class MGFit(Contract):
    qual = MG + "fit"
    props = ("C06", "C14")
    arity = 2
    root = True
    callable = False

    def setup(self, S, case):
        self.o = S.obj(MG[:-1], _max_explanatory_num=S.ex.fint("maxexp"), _MLHSICR=S.ex.fbool("mlhsicr"),
                       _ancestors_list=None, _adjacency_matrices=None)
        X = S.seq(ety=("arr", 2, "float"), nm="Xs")
        self.x = S.d(X)
        return self.o, [X], {}

    def modifies(self, ctx):
        return {("attr", self.o.id, a) for a in ("_ancestors_list", "_adjacency_matrices", "_n_features", "_k")}

    def post(self, ctx, res):
        M = ctx.new.attr(self.o, "_ancestors_list")
        Bs = ctx.new.attr(self.o, "_adjacency_matrices")
        n = self.x.get(0).shape[1]
        out = [("returns itself", z3.BoolVal(isinstance(res, Ref) and res.id == self.o.id)), ("one matrix per group", Eq(Bs.n, self.x.n))]
        g, h = bvars(2)
        ok = rng(self.x.n, g)
        out += [(nm, ForAll([g], Implies(ok, f)) if f_needs else f) for nm, f, f_needs in
                [(nm, f, i >= 4) for i, (nm, f) in enumerate(consistent(M, Bs.get(g), n))]]
        i, j = bvars(2)
        out.append(("same NaN pairs in every group", ForAll([g, h, i, j], Implies(
            And(rng(self.x.n, g, h), rng(n, i, j), Bs.get(g).get(i, j).nan), Bs.get(h).get(i, j).nan))))
        return out

    def loop_candidates(self, L):
        out = []
        sets = [d for _, d in L.const_values(lambda d: isinstance(d, SeqV) and d.ety == ("set",))]
        for nm, loc, v in L.seqs:
            if not (isinstance(v.ety, tuple) and v.ety[0] == "arr"):
                continue

            def each(sv, l, f):
                s = sv.loc(l)
                if isinstance(s.n, int) and s.n == 0:
                    return True
                g, i, j = bvars(3)
                b = s.get(g)
                return ForAll([g, i, j], Implies(And(rng(s.n, g), rng(self.x.get(0).shape[1], i, j)), f(b, i, j)))
            n = self.x.get(0).shape[1]

            def square(sv, l=loc):
                s = sv.loc(l)
                g, = bvars(1)
                return True if isinstance(s.n, int) and s.n == 0 else ForAll([g], Implies(rng(s.n, g), And(Eq(s.get(g).shape[0], n), Eq(s.get(g).shape[1], n))))
            out.append((f"{nm}: square", square))
            for P in sets:
                out.append((f"{nm}: NaN exactly there", lambda sv, l=loc, P=P: each(sv, l, lambda b, i, j: Eq(as_bool(b.get(i, j).nan), as_bool(P.get(i).mem(j))))))
                out.append((f"{nm}: coefficients only there", lambda sv, l=loc, P=P: each(sv, l, lambda b, i, j: Implies(
                    And(Not(b.get(i, j).nan), Not(b.get(i, j).is_zero())), P.get(i).mem(j)))))
        return out


# ---------------------------------------------------------------- stand-alone ancestor extraction
U = "lingam.utils._rcd:"


class UPure(PureBool):
    def setup(self, S, case):
        m, n = S.size("m"), S.size("n")
        return None, self.params(S, m, n), {}


class UNonGauss(UPure):
    qual = U + "is_non_gaussianity"
    arity = 3

    def params(self, S, m, n):
        return [S.arr(m, n, nm="Y"), S.seq(nm="U"), S.ex.ffl("alpha")]


class UCorrelated(UPure):
    qual = U + "is_correlated"
    arity = 3

    def params(self, S, m, n):
        return [S.seq("arr", "float", nm="a", n=m), S.seq("arr", "float", nm="b", n=m), S.ex.ffl("alpha")]


class UIndep(UPure):
    qual = U + "is_independent"
    arity = 4

    def params(self, S, m, n):
        return [S.arr(m, 1, nm="a"), S.arr(m, 1, nm="b"), S.ex.ffl("alpha"), StrS(S.ex.fint("bw"))]


class UIndepOfResid(UPure):
    qual = U + "is_independent_of_resid"
    arity = 6

    def params(self, S, m, n):
        return [S.arr(m, n, nm="Y"), S.ex.fint("xi"), S.seq(nm="xj_list"), S.ex.ffl("alpha"), StrS(S.ex.fint("bw")), S.ex.fbool("ml")]


class UAncestors(Ancestors):
    """the stand-alone function: same guarantees for any settings"""
    qual = U + "extract_ancestors"
    root = True
    arity = 7
    callable = False

    def setup(self, S, case):
        m, n = S.size("m"), S.size("n")
        self.n = n
        return None, [S.arr(m, n, nm="X"), S.ex.fint("maxexp"), S.ex.ffl("ca"), S.ex.ffl("ia"), S.ex.ffl("sa"), S.ex.fbool("ml"),
                      StrS(S.ex.fint("bw"))], {}

    def nf(self, ctx):
        return self.n


from .settings import CheckXListRCD  # noqa: E402
from .stats import FCorrPure, HsicPure  # noqa: E402

CONTRACTS = [HsicPure(), FCorrPure(), Indep(), MLHSICR(), IndepOfResid(), NonGauss(), Correlated(), Ancestors(), Parents(), Confounded(), Matrix(), Fit(),
             CheckXListRCD(), MGIndep(), MGMLHSICR(), MGIndepOfResid(), MGNonGauss(), MGCorrelated(), MGAncestors(), MGParents(),
             MGConfounded(), MGMatrix(), MGFit(), UNonGauss(), UCorrelated(), UIndep(), UIndepOfResid(), UAncestors()]
