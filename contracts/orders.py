"""C01: ICALiNGAM, HighDimDirectLiNGAM, RESIT: permutation orders and matrices that respect them."""
import z3

from pyvc.values import *
from pyvc.verify import Contract
from .order import EstAdj, perm, respects
from .stats import HsicPure
from .utils import rng

ICA = "lingam.ica_lingam:ICALiNGAM"
HD = "lingam.high_dim_direct_lingam:HighDimDirectLiNGAM"
RE = "lingam.resit:RESIT"


def none_or_perm(r, n):
    if r is None:
        return True
    if isinstance(r, Opt):
        return Or(r.isnone, none_or_perm(r.val, n))
    if isinstance(r, SeqV):
        return perm(r, n)
    return False


class ICASearch(Contract):
    qual = ICA + "._search_causal_order"
    arity = 2
    props = ("C01",)

    def setup(self, S, case):
        n = S.size("n")
        return S.obj(ICA), [S.arr(n, n, nm="W")], {}

    def pre(self, ctx):
        W = ctx.pval(1)
        return [("square", And(Eq(W.shape[0], W.shape[1])))]

    def modifies(self, ctx):
        return set()

    def post(self, ctx, res):
        n = ctx.old.deref(ctx.param(1)).shape[0]
        return [("None or every index exactly once", none_or_perm(ctx.ex.deref(res), n))]

    def result(self, ctx):
        return ctx.ex.fresh(("opt", ("seq", "list", "int")), "ord")

    def loop_candidates(self, L):
        out = []
        for nm, loc, v in L.arrs:
            if v.ndim != 2:
                continue
            out.append((f"{nm} is square", lambda sv, l=loc: Eq(sv.loc(l).shape[0], sv.loc(l).shape[1])))
            for sn, sl, s in L.seqs:
                if s.ety == "int":
                    out.append((f"len({nm})==len({sn})", lambda sv, l=loc, m=sl: Eq(sv.loc(l).shape[0], sv.loc(m).n)))
        return out


class ICAEstimate(ICASearch):
    qual = ICA + "._estimate_causal_order"

    def modifies(self, ctx):
        return {("cell", ctx.param(1).id)}


def fit_post(ctx, res, n, new=True):
    me = ctx.param(0)
    B, s = ctx.new.attr(me, "_adjacency_matrix"), ctx.new.attr(me, "_causal_order")
    if isinstance(s, Opt):
        ok = Not(s.isnone)
        s = s.val
    else:
        ok = True
    return [("causal order lists every variable exactly once", And(ok, perm(s, n))),
            ("matrix is square", And(Eq(B.shape[0], n), Eq(B.shape[1], n))),
            ("matrix respects the order", respects(B, s, n)),
            ("returns self", z3.BoolVal(isinstance(res, Ref) and res.id == me.id))]


class ICAFit(Contract):
    qual = ICA + ".fit"
    arity = 2
    props = ("C01",)
    root = True

    def setup(self, S, case):
        m, n = S.size("m"), S.size("n", 2)
        S.assume(m >= n)      # otherwise FastICA's unmixing matrix is not square and fit raises
        return S.obj(ICA, _max_iter=S.ex.fint("it")), [S.arr(m, n, nm="X")], {}

    def modifies(self, ctx):
        i = ctx.param(0).id
        return {("attr", i, "_adjacency_matrix"), ("attr", i, "_causal_order")}

    def post(self, ctx, res):
        return fit_post(ctx, res, ctx.old.deref(ctx.param(1)).shape[1])


class HDEst(EstAdj):
    qual = HD + "._estimate_adjacency_matrix2"
    arity = 2
    cases = ("",)
    props = ("C01",)

    def setup(self, S, case):
        m, n = S.size("m"), S.size("n")
        order = S.seq(nm="order", n=n)
        o = S.obj(HD, _causal_order=order)
        S.assume(perm(S.d(order), n))
        return o, [S.arr(m, n, nm="X")], {}

    def post(self, ctx, res):
        n = ctx.pval(1).shape[1]
        return fit_post(ctx, res, n)[1:]


class HDTaus(Contract):
    """the statistics only read the data"""
    qual = HD + "._calc_taus"
    arity = 6
    props = ("C01", "C14")

    def setup(self, S, case):
        m, n = S.size("m"), S.size("n")
        o = S.obj(HD, _Y=S.arr(m, n, nm="Y"), _yty=S.arr(n, n, nm="yty"))
        a, b = S.size("a"), S.size("b")
        return o, [S.ex.fint("pa"), S.seq(nm="ch"), S.ex.fint("k"), S.arr(a, S.size("c"), nm="cond", dtype="int"), S.arr(b, S.size("d"), nm="an", dtype="int")], {}

    def modifies(self, ctx):
        return set()

    def result(self, ctx):
        return Opaque("statistics")


class HDStats(HDTaus):
    qual = HD + "._get_prune_stats"
    arity = 7
    cases = ("first root", "later roots")

    def setup(self, S, case):
        m, n = S.size("m"), S.size("n")
        o = S.obj(HD, _Y=S.arr(m, n, nm="Y"), _yty=S.arr(n, n, nm="yty"))
        last = None if case == "first root" else S.ex.fint("last")
        return o, [S.ex.fint("i"), S.seq(nm="j"), S.ex.fint("K"), last, S.seq("set", nm="cs"), S.ex.fint("J")], {}


class HDFit(ICAFit):
    qual = HD + ".fit"
    cases = ("matrix estimated", "order only")

    def setup(self, S, case):
        m, n = S.size("m"), S.size("n")
        o = S.obj(HD, _J=S.ex.fint("J"), _K=S.ex.fint("K"), _alpha=S.ex.ffl("alpha"), _estimate_adj_mat=case == self.cases[0])
        return o, [S.arr(m, n, nm="X")], {}

    def modifies(self, ctx):
        i = ctx.param(0).id
        return {("attr", i, a) for a in ("_adjacency_matrix", "_causal_order", "_Y", "_yty")}

    def post(self, ctx, res):
        n = ctx.old.deref(ctx.param(1)).shape[1]
        if ctx.case == "order only":
            s = ctx.new.attr(ctx.param(0), "_causal_order")
            return [("causal order lists every variable exactly once", perm(s, n))]
        return fit_post(ctx, res, n)


def parents_of(d, v):
    """candidate parents of v recorded in the dictionary"""
    return d.get(v)


def parents_before(d, s, n):
    """recorded parents precede the variable in the order"""
    v, p = bvars(2)
    return ForAll([v, p], Implies(And(rng(n, v), d.get(v).has(p)), And(rng(n, p), Lt(s.pos(p), s.pos(v)))))


def keys_are(d, n):
    v, = bvars(1)
    return ForAll([v], Eq(as_bool(d.has(v)), as_bool(And(Le(0, v), Lt(v, n)))))


class RESITOrder(Contract):
    qual = RE + "._estimate_order"
    arity = 2
    props = ("C01", "C14")

    def setup(self, S, case):
        m, n = S.size("m"), S.size("n")
        self.n = n
        return S.obj(RE, _alpha=S.ex.ffl("alpha"), _reg=Opaque("reg")), [S.arr(m, n, nm="X")], {}

    def modifies(self, ctx):
        return set()

    def post(self, ctx, res):
        n = ctx.pval(1).shape[1]
        if not isinstance(res, tuple):
            raise Unsupported("result of _estimate_order")
        pa, pi = ctx.new.deref(res[0]), ctx.new.deref(res[1])
        if isinstance(pa, DictV) and pa.cd is not None:
            return [("no variable", And(Eq(n, 0), Eq(pi.n, 0), z3.BoolVal(not pa.cd)))]
        return [("order lists every variable exactly once", perm(pi, n)), ("parents of every variable", keys_are(pa, n)),
                ("parents precede the variable", parents_before(pa, pi, n)),
                ("parent lists are not shared", z3.BoolVal(ctx.ex.esrc.get(res[0].id) is not None and not any(
                    b in ctx.old.heap for b in ctx.ex.esrc[res[0].id])))]

    def result(self, ctx):
        ex = ctx.ex
        n = ctx.pval(1).shape[1]
        r = self.fresh(ex, n)
        ex.esrc[r[0].id] = frozenset()
        return r

    def fresh(self, ex, n):
        return (ex.new(ex.fresh(("dict", ("seq", "list", "int")), "pa")), ex.new(ex.fresh(("seq", "list", "int"), "pi", n=n)))

    def loop_candidates(self, L):
        out = []
        n = self.n
        iseqs = [(nm, loc) for nm, loc, v in L.seqs if v.ety in ("int", None)]
        for dn, dl, d in L.dicts:
            for an, al in iseqs:
                def keys(sv, dl=dl, al=al):
                    D, s = sv.loc(dl), sv.loc(al)
                    v, = bvars(1)
                    if D.cd is not None:
                        return Eq(s.n, 0) if not D.cd else True
                    return ForAll([v], Eq(as_bool(D.has(v)), as_bool(s.has(v))))
                out.append((f"{dn}: keys are {an}", keys))

                def last(sv, dl=dl, al=al):
                    D, s = sv.loc(dl), sv.loc(al)
                    if D.cd is not None or L.n is None or isinstance(s.n, int) and s.n == 0:
                        return Implies(Eq(n, 0), True)
                    v, p = bvars(2)
                    return Implies(Le(L.n, sv.k), And(ForAll([v], Implies(rng(n, v), s.has(v))), ForAll([v, p], Implies(
                        And(s.has(v), D.get(v).has(p)), And(s.has(p), Lt(s.pos(p), s.pos(v)))))))
                out.append((f"{dn}, {an}: complete after the last iteration", last))
                for bn, bl in iseqs:
                    if al == bl:
                        continue

                    def before(sv, dl=dl, al=al, bl=bl):
                        D, s, t = sv.loc(dl), sv.loc(al), sv.loc(bl)
                        if D.cd is not None:
                            return Eq(s.n, 0) if not D.cd else True
                        if isinstance(s.n, int) and s.n == 0:
                            return True
                        v, p = bvars(2)
                        return ForAll([v, p], Implies(And(s.has(v), D.get(v).has(p)), Or(t.has(p), And(s.has(p), Lt(s.pos(p), s.pos(v))))))
                    out.append((f"{dn}: parents in {bn} or earlier in {an}", before))
        return out


class RESITPrune(Contract):
    """parents are only removed"""
    qual = RE + "._remove_edges"
    arity = 4
    props = ("C01", "C14")

    def setup(self, S, case):
        m, n = S.size("m"), S.size("n")
        self.n = n
        pa = S.ex.new(S.ex.fresh(("dict", ("seq", "list", "int")), "pa"))
        pi = S.seq(nm="pi", n=n)
        self.pa, self.pi = S.d(pa), S.d(pi)
        S.ex.esrc[pa.id] = frozenset()
        return S.obj(RE, _alpha=S.ex.ffl("alpha"), _reg=Opaque("reg")), [S.arr(m, n, nm="X"), pa, pi], {}

    def pre(self, ctx):
        pa, pi, n = ctx.pval(2), ctx.pval(3), ctx.pval(1).shape[1]
        return [("order is a permutation", perm(pi, n)), ("keys", keys_are(pa, n)), ("parents precede the variable", parents_before(pa, pi, n)),
                ("parent lists are not shared", z3.BoolVal(not ctx.ex.esrc.get(ctx.param(2).id, {1}) & set(ctx.ex.heap)))]

    def modifies(self, ctx):
        return {("cell", ctx.param(2).id)}

    def post(self, ctx, res):
        pi, n = ctx.old.deref(ctx.param(3)), ctx.pval(1).shape[1]
        pa = ctx.new.deref(res)
        return [("parents of every variable", keys_are(pa, n)), ("parents precede the variable", parents_before(pa, pi, n))]

    def result(self, ctx):
        d = ctx.param(2)
        ctx.ex.heap[d.id] = ctx.ex.fresh(("dict", ("seq", "list", "int")), "pa2")
        return d

    def loop_candidates(self, L):
        out = []
        for dn, dl, d in L.dicts:
            out.append((f"{dn}: keys", lambda sv, dl=dl: keys_are(sv.loc(dl), self.n)))
            out.append((f"{dn}: parents precede the variable", lambda sv, dl=dl: parents_before(sv.loc(dl), self.pi, self.n)))
        return out


class RESITFit(ICAFit):
    qual = RE + ".fit"
    cases = ("",)

    def setup(self, S, case):
        m, n = S.size("m"), S.size("n")
        self.n = n
        return S.obj(RE, _alpha=S.ex.ffl("alpha"), _reg=Opaque("reg")), [S.arr(m, n, nm="X")], {}

    def loop_candidates(self, L):
        """only recorded parents become edges, whichever container they are read from"""
        out = []
        n = self.n
        dicts = [d for _, d in L.const_values(lambda d: isinstance(d, DictV) and d.has is not None)]
        for nm, loc, v in L.arrs:
            if v.ndim != 2:
                continue
            for d in dicts:
                def edges(sv, l=loc, d=d):
                    r, c = bvars(2)
                    return ForAll([r, c], Implies(And(rng(n, r, c), sv.loc(l).get(r, c).nonzero()), d.get(r).has(c)))
                out.append((f"{nm}: nonzero only for recorded parents", edges))
        return out


CONTRACTS = [HsicPure(), EstAdj(), ICASearch(), ICAEstimate(), ICAFit(), HDEst(), HDTaus(), HDStats(), HDFit(), RESITOrder(), RESITPrune(), RESITFit()]
