"""C18 (and the setting clauses of C07): invalid settings are refused, valid ones are stored unchanged."""
import z3

from pyvc.values import *
from pyvc.verify import Contract

KINDS = {
    # setting kind -> (symbolic value, validity formula)
    "nonneg": (lambda S, nm: S.ex.ffl(nm), lambda v: Not(And(Not(v.nan), v.v < 0))),
    "posint": (lambda S, nm: S.ex.fint(nm), lambda v: Lt(0, v)),
    "bw": (lambda S, nm: StrS(S.ex.fint(nm)), lambda v: Or(*[Eq(v.t, str_code(x)) for x in ("mdbs", "scott", "silverman")])),
    "indep": (lambda S, nm: StrS(S.ex.fint(nm)), lambda v: Or(*[Eq(v.t, str_code(x)) for x in ("hsic", "fcorr")])),
    "reg": (lambda S, nm: Opaque(nm), lambda v: And(Not(z3.Bool(f"truth@isnone{v.uid}")), has(v, "fit"), has(v, "predict"))),
    "regopt": (lambda S, nm: Opaque(nm), lambda v: Or(z3.Bool(f"truth@isnone{v.uid}"), And(has(v, "fit"), has(v, "predict")))),
    "any": (lambda S, nm: Opaque(nm), lambda v: True),
    "flag": (lambda S, nm: S.ex.fbool(nm), lambda v: True),
    "int>2": (lambda S, nm: S.ex.fint(nm), lambda v: Lt(2, v)),
    "unit": (lambda S, nm: S.ex.ffl(nm), lambda v: Not(And(Not(v.nan), Or(v.v < 0, v.v > 1)))),
}


def has(v, nm):
    return z3.Bool(f"truth@has{v.uid}.{nm}")


def eqv(a, b):
    if isinstance(a, Fl) and isinstance(b, Fl):
        return And(Eq(as_bool(a.nan), as_bool(b.nan)), Or(a.nan, Eq(a.v, b.v)))
    if isinstance(a, StrS) and isinstance(b, StrS):
        return Eq(a.t, b.t)
    if is_term(a) or is_term(b):
        return Eq(a, b) if (is_int(a) and is_int(b)) or (is_bool(a) and is_bool(b)) else False
    return z3.BoolVal(a is b)


class Settings(Contract):
    """raises ValueError exactly if some setting is invalid; stores each setting unchanged"""
    props = ("C18",)
    root = True
    callable = False
    spec = ()
    fixed = {}

    def setup(self, S, case):
        self.vals = {nm: KINDS[k][0](S, nm) for nm, k, _ in self.spec}
        return S.obj(self.qual.split(".__init__")[0]), [], dict(self.fixed, **self.vals)

    def modifies(self, ctx):
        return {("attr", ctx.param(0).id, "*")}

    def post(self, ctx, res):
        o = ctx.new.deref(ctx.param(0))
        out = []
        for nm, k, attr in self.spec:
            v = self.vals[nm]
            ok = KINDS[k][1](v)
            if ok is not True:
                out.append((f"accepted only with a valid {nm}", ok))
            if attr in o.attrs:
                out.append((f"{nm} is stored unchanged", eqv(ctx.new.deref(o.attrs[attr]), v)))
        return out

    def exc_post(self, ctx, etype, implicit):
        bad = Or(*[Not(KINDS[k][1](self.vals[nm])) for nm, k, _ in self.spec])
        return [("some setting is invalid", bad), ("the exception is a ValueError", z3.BoolVal(etype == "ValueError"))]


def mk(name, q, *spec, props=("C18",), **fixed):
    return type(name, (Settings,), dict(qual=q + ".__init__", spec=spec, props=props, fixed=fixed))()


RCD = (("max_explanatory_num", "posint", "_max_explanatory_num"), ("cor_alpha", "nonneg", "_cor_alpha"),
       ("ind_alpha", "nonneg", "_ind_alpha"), ("shapiro_alpha", "nonneg", "_shapiro_alpha"), ("MLHSICR", "flag", "_MLHSICR"),
       ("bw_method", "bw", "_bw_method"), ("independence", "indep", "_independence"), ("ind_corr", "nonneg", "_ind_corr"))
CAM = (("alpha", "nonneg", "_alpha"), ("num_explanatory_vals", "posint", "_num_explanatory_vals"),
       ("independence", "indep", "_independence"), ("ind_corr", "nonneg", "_ind_corr"))
CONTRACTS = [
    mk("RCDSettings", "lingam.rcd:RCD", *RCD),
    mk("MGRCDSettings", "lingam.multi_group_rcd:MultiGroupRCD", *RCD),
    mk("CAMUVSettings", "lingam.camuv:CAMUV", *CAM, props=("C18", "C07")),
    mk("MGCAMUVSettings", "lingam.multi_group_camuv:MultiGroupCAMUV", *CAM, props=("C18", "C07")),
    mk("ParceSettings", "lingam.bottom_up_parce_lingam:BottomUpParceLiNGAM", ("random_state", "any", "_random_state"),
       ("alpha", "nonneg", "_alpha"), ("regressor", "regopt", "_reg"), ("independence", "indep", "_independence"),
       ("ind_corr", "nonneg", "_ind_corr")),
    mk("RESITSettings", "lingam.resit:RESIT", ("regressor", "reg", "_reg"), ("random_state", "any", "_random_state"),
       ("alpha", "nonneg", "_alpha")),
    mk("HighDimSettings", "lingam.high_dim_direct_lingam:HighDimDirectLiNGAM", ("J", "int>2", "_J"), ("K", "posint", "_K"),
       ("alpha", "unit", "_alpha"), ("estimate_adj_mat", "flag", "_estimate_adj_mat")),
]


class CheckXList(Contract):
    """a list of at least two datasets with the same columns is returned unchanged; anything else raises ValueError"""
    qual = "lingam.multi_group_direct_lingam:MultiGroupDirectLiNGAM._check_X_list"
    arity = 2
    props = ("C18", "C01", "C02", "C06", "C07", "C13", "C14", "C16")
    root = True

    def setup(self, S, case):
        return S.obj(self.qual.split("._check")[0]), [S.seq(ety=("arr", 2, "float"), nm="Xs")], {}

    def pre(self, ctx):
        x = ctx.pval(1)
        return [("a list of datasets", z3.BoolVal(isinstance(x, SeqV) and x.kind == "list" and isinstance(x.get(0), ArrV)))]

    def modifies(self, ctx):
        i = ctx.param(0).id
        return {("attr", i, "_n_features"), ("attr", i, "_k")}

    def post(self, ctx, res):
        Xs, r = ctx.old.deref(ctx.param(1)), ctx.new.deref(res)
        k, i, j = bvars(3)
        nf = ctx.new.attr(ctx.param(0), "_n_features")
        a, b = Xs.get(k), r.get(k)
        ok = And(Le(0, k), Lt(k, Xs.n))
        out = [("at least two datasets", Le(2, Xs.n)), ("as many datasets as given", Eq(r.n, Xs.n)),
               ("all have the same columns", ForAll([k], Implies(ok, And(Eq(a.shape[1], nf), Eq(b.shape[1], nf))))),
               ("same rows", ForAll([k], Implies(ok, Eq(a.shape[0], b.shape[0])))),
               ("datasets are returned unchanged in order", ForAll([k, i, j], Implies(
                   And(ok, Le(0, i), Lt(i, a.shape[0]), Le(0, j), Lt(j, a.shape[1])), eqv(a.get(i, j), b.get(i, j)))))]
        o = ctx.new.deref(ctx.param(0))
        if "_k" in o.attrs and self.has_k:
            out.append(("_k is the number of datasets", Eq(ctx.new.attr(ctx.param(0), "_k"), Xs.n)))
        return out

    has_k = False

    def exc_post(self, ctx, etype, implicit):
        Xs = ctx.old.deref(ctx.param(1))
        k, = bvars(1)
        return [("fewer than two datasets or differing columns", Or(Lt(Xs.n, 2), Exists([k], And(
            Le(0, k), Lt(k, Xs.n), Not(Eq(Xs.get(k).shape[1], Xs.get(0).shape[1]))))))]

    def raises(self, ctx):
        Xs = ctx.pval(1)
        k, = bvars(1)
        return [("ValueError", Or(Lt(Xs.n, 2), Exists([k], And(
            Le(0, k), Lt(k, Xs.n), Not(Eq(Xs.get(k).shape[1], Xs.get(0).shape[1]))))))]

    def result(self, ctx):
        ex = ctx.ex
        Xs = ctx.pval(1)
        o = ex.deref(ctx.param(0))
        a = dict(o.attrs)
        a["_n_features"] = ex.fsize("nf")
        if self.has_k:
            a["_k"] = ex.fsize("k")
        ex.heap[ctx.param(0).id] = ObjV(o.cls, a, o.havoced)
        # element k of the result is element k of the argument (possibly the same object)
        r = ex.new(SeqV(Xs.n, Xs.get, "list", Xs.ety))
        return r

    def loop_candidates(self, L):
        out = []
        for nm, loc, v in L.seqs:
            if isinstance(v.ety, tuple) and v.ety[0] == "arr":
                for cn, Xs in L.const_values(lambda d: isinstance(d, SeqV) and isinstance(d.ety, tuple) and d.ety[0] == "arr"):
                    def same(sv, l=loc, Xs=Xs):
                        k, i, j = bvars(3)
                        s = sv.loc(l)
                        if isinstance(s.n, int) and s.n == 0:
                            return True
                        return ForAll([k, i, j], Implies(And(Le(0, k), Lt(k, s.n), Le(0, i), Le(0, j), Lt(i, Xs.get(k).shape[0]), Lt(j, Xs.get(k).shape[1])),
                                                         eqv(s.get(k).get(i, j), Xs.get(k).get(i, j))))
                    out.append((f"{nm} equals {cn} so far", same))

                    def shp(sv, l=loc, Xs=Xs):
                        k, = bvars(1)
                        s = sv.loc(l)
                        if isinstance(s.n, int) and s.n == 0:
                            return True
                        return ForAll([k], Implies(And(Le(0, k), Lt(k, s.n)), And(*[Eq(x, y) for x, y in zip(s.get(k).shape, Xs.get(k).shape)])))
                    out.append((f"{nm} shapes as {cn} so far", shp))
        return out


class CheckXListRCD(CheckXList):
    qual = "lingam.multi_group_rcd:MultiGroupRCD._check_X_list"
    has_k = True


class CheckXListCAMUV(CheckXList):
    qual = "lingam.multi_group_camuv:MultiGroupCAMUV._check_X_list"
    has_k = True


CONTRACTS += [CheckXList(), CheckXListRCD(), CheckXListCAMUV()]
