"""C01/C02: orders are permutations, matrices respect the order, prior knowledge is honoured."""
import z3

from pyvc.values import *
from pyvc.verify import Contract


def perm(s, n):
    v, = bvars(1)
    return And(Eq(s.n, n), s.is_distinct(),
               ForAll([v], Implies(s.has(v), And(Le(0, v), Lt(v, n)))),
               ForAll([v], Implies(And(Le(0, v), Lt(v, n)), s.has(v))))


def respects(B, s, n):
    """an entry can be nonzero only from an earlier to a later variable"""
    r, c = bvars(2)
    return ForAll([r, c], Implies(And(Le(0, r), Lt(r, n), Le(0, c), Lt(c, n), B.get(r, c).nonzero()),
                                  Lt(s.pos(c), s.pos(r))))


def unopt(s):
    """a value that may be None, as (it is there, the value)"""
    if isinstance(s, Opt):
        return Not(s.isnone), s.val
    return True, s


class EstAdj(Contract):
    qual = "lingam.base:_BaseLiNGAM._estimate_adjacency_matrix"
    arity = 3
    cases = ("no prior knowledge", "prior knowledge", "order may be missing")
    props = ("C01", "C02", "C18")

    def setup(self, S, case):
        m, n = S.size("m"), S.size("n")
        order = S.seq(nm="order", n=n)
        S.assume(perm(S.d(order), n))
        if case == "order may be missing":
            order = Opt(S.ex.fbool("noorder"), S.d(order))
        o = S.obj("lingam.base:_BaseLiNGAM", _causal_order=order)
        X = S.arr(m, n, nm="X")
        pk = S.arr(n, n, dtype="int", nm="pk") if case == "prior knowledge" else None
        return o, [X, pk], {}

    def pre(self, ctx):
        X = ctx.pval(1)
        s = ctx.ex.deref(ctx.ex.getattr(ctx.param(0), "_causal_order"))
        there, s = unopt(s)
        return [("causal order is a permutation", Implies(there, perm(s, X.shape[1])))]

    def modifies(self, ctx):
        return {("attr", ctx.param(0).id, "_adjacency_matrix")}

    def post(self, ctx, res):
        n = ctx.pval(1).shape[1]
        sv = ctx.new
        B = sv.attr(ctx.param(0), "_adjacency_matrix")
        there, s = unopt(sv.attr(ctx.param(0), "_causal_order"))
        pk = ctx.old.deref(ctx.param(2))
        out = [("refused without an order", there)] if there is not True else []
        out += [("shape", And(Eq(B.shape[0], n), Eq(B.shape[1], n))),
               ("matrix respects the order", respects(B, s, n)),
               ("returns self", z3.BoolVal(isinstance(res, Ref) and res.id == ctx.param(0).id))]
        if pk is not None:
            r, c = bvars(2)
            out.append(("forbidden paths stay zero", ForAll([r, c], Implies(
                And(Le(0, r), Lt(r, n), Le(0, c), Lt(c, n), pkzero(pk, r, c)), B.get(r, c).is_zero()))))
        return out

    def result(self, ctx):
        n = ctx.pval(1).shape[1]
        o = ctx.ex.deref(ctx.param(0))
        a = dict(o.attrs)
        a["_adjacency_matrix"] = ctx.ex.new(ctx.ex.fresh_arr([n, n], "float", "B"))
        ctx.ex.heap[ctx.param(0).id] = ObjV(o.cls, a, o.havoced)
        return ctx.param(0)

    def loop_candidates(self, L):
        out = []
        for nm, loc, v in L.arrs:
            if v.dtype != "float" or v.ndim != 2:
                continue
            for cn, s in L.const_values(lambda d: isinstance(d, SeqV) and d.ety == "int"):
                pass
            self_ref = L.head.frames[-1].get("self")
            obj = [x for x in L.head.frames[-1].values() if isinstance(x, Ref) and isinstance(
                L.head.heap.get(x.id), ObjV)]
            for o in obj:
                try:
                    s = unopt(L.hv.attr(o, "_causal_order"))[1]
                except KeyError:
                    continue
                if not isinstance(s, SeqV):
                    continue
                n = s.n
                out.append((f"{nm} respects order", lambda sv, l=loc, s=s, n=n: respects(sv.loc(l), s, n)))
            for cn, pk in L.const_values(lambda d: isinstance(d, ArrV) and d.dtype == "int"):
                def f(sv, l=loc, pk=pk):
                    B = sv.loc(l)
                    r, c = bvars(2)
                    return ForAll([r, c], Implies(And(Le(0, r), Lt(r, B.shape[0]), Le(0, c), Lt(c, B.shape[1]),
                                                      pkzero(pk, r, c)), B.get(r, c).is_zero()))
                out.append((f"{nm} zero where {cn} zero", f))
        return out


def pkzero(pk, r, c):
    x = pk.get(r, c)
    return x.is_zero() if isinstance(x, Fl) else Eq(x, 0)


CONTRACTS = [EstAdj()]
