"""C17: graph utilities agree with the graph."""
import z3

from pyvc import models
from pyvc.values import *
from pyvc.verify import Contract
from .settings import eqv
from .utils import rng


class Terminal(Contract):
    """the variables without outgoing (incoming) edges, self loops ignored; entries are not NaN"""
    props = ("C17", "C14")
    root = True
    callable = False
    arity = 1
    sink = True

    def setup(self, S, case):
        n = S.size("n")
        self.n = n
        B = S.arr(n, n, nm="B")
        self.b = S.d(B)
        i, j = bvars(2)
        S.assume(ForAll([i, j], Implies(rng(n, i, j), Not(self.b.get(i, j).nan))))
        return None, [B], {}

    def modifies(self, ctx):
        return set()

    def free(self, v):
        q, = bvars(1)
        e = self.b.get(q, v) if self.sink else self.b.get(v, q)
        return And(Le(0, v), Lt(v, self.n), ForAll([q], Implies(And(rng(self.n, q), Not(Eq(q, v))), e.is_zero())))

    def post(self, ctx, res):
        r = ctx.new.deref(res)
        v, i, j = bvars(3)
        if isinstance(r.n, int) and r.n == 0:
            return [("exactly the variables without such edges", ForAll([v], Not(self.free(v))))]
        return [("exactly the variables without such edges", ForAll([v], Eq(as_bool(r.has(v)), as_bool(self.free(v))))),
                ("each once", r.is_distinct())]

    def loop_candidates(self, L):
        out = []
        for nm, loc, v in L.seqs:
            if v.ety in ("int", None):
                def mem(sv, l=loc):
                    s = sv.loc(l)
                    v, = bvars(1)
                    if isinstance(s.n, int) and s.n == 0:
                        return ForAll([v], Implies(And(Le(0, v), Lt(v, sv.k)), Not(self.free(v))))
                    return ForAll([v], Eq(as_bool(s.has(v)), as_bool(And(Lt(v, sv.k), self.free(v)))))
                out.append((f"{nm}: the variables found among the first k", mem))

                def asc(sv, l=loc):
                    s = sv.loc(l)
                    if isinstance(s.n, int) and s.n == 0:
                        return True
                    i, j = bvars(2)
                    return ForAll([i, j], Implies(And(Le(0, i), Lt(i, j), Lt(j, s.n)), Lt(s.get(i), s.get(j))))
                out.append((f"{nm}: ascending", asc))
        return out


class Sinks(Terminal):
    qual = "lingam.utils:get_sink_variables"


class Exos(Terminal):
    qual = "lingam.utils:get_exo_variables"
    sink = False


class RemoveEffect(Contract):
    """removed columns keep their values; every other column becomes the residual of its regression on them"""
    qual = "lingam.utils:remove_effect"
    props = ("C17", "C14")
    root = True
    callable = False
    arity = 3
    cases = ("matrix", "matrix and coefficients")

    def setup(self, S, case):
        m, n = S.size("m"), S.size("n")
        self.n, self.m = n, m
        X = S.arr(m, n, nm="X")
        self.x = S.d(X)
        F = S.seq(nm="features")
        self.f = S.d(F)
        v, = bvars(1)
        S.assume(ForAll([v], Implies(self.f.has(v), And(Le(0, v), Lt(v, n)))))
        return None, [X, F], ({"return_coefs": True} if case != "matrix" else {})

    def modifies(self, ctx):
        return set()

    def removed(self):
        return ArrV((self.m, self.f.n), lambda r, t: self.x.get(r, self.f.get(t)), "float")

    def matrix_families(self):
        return [(0, self.removed)]

    def vector_families(self):
        return [(1, lambda c: ((lambda r: self.x.get(r, c)), self.m))]

    def want(self, r, c):
        y = SeqV(self.m, lambda q: self.x.get(q, c), "arr", "float")
        A = self.removed()
        return models.farith(models.ast.Sub(), self.x.get(r, c), models.prediction(A, y, A)(r))

    def post(self, ctx, res):
        R = ctx.new.deref(res)
        if ctx.case != "matrix":
            R = ctx.new.deref(R[0])
        r, c = bvars(2)
        ok = And(rng(self.m, r), rng(self.n, c))
        return [("shape", And(Eq(R.shape[0], self.m), Eq(R.shape[1], self.n))),
                ("removed columns unchanged", ForAll([r, c], Implies(And(ok, self.f.has(c)), eqv(R.get(r, c), self.x.get(r, c))))),
                ("other columns are residuals", ForAll([r, c], Implies(And(ok, Not(self.f.has(c))), eqv(R.get(r, c), self.want(r, c)))))]

    def loop_candidates(self, L):
        out = []
        it = L.it
        for nm, loc, v in L.arrs:
            if v.ndim != 2 or v.dtype != "float":
                continue

            def keep(sv, l=loc):
                r, c = bvars(2)
                return ForAll([r, c], Implies(And(rng(self.m, r), rng(self.n, c), self.f.has(c)), eqv(sv.loc(l).get(r, c), self.x.get(r, c))))
            out.append((f"{nm}: removed columns unchanged", keep))
            if it is not None and getattr(it, "seq", None) is not None and it.seq.pos is not None:
                sq = it.seq
                done = lambda sv, c: And(sq.has(c), Lt(sq.pos(c), sv.k))
            else:
                done = lambda sv, c: And(Lt(c, sv.k), Not(self.f.has(c)))

            def res(sv, l=loc, done=done):
                r, c = bvars(2)
                P = sv.loc(l)
                return ForAll([r, c], Implies(And(rng(self.m, r), rng(self.n, c)), And(
                    Implies(done(sv, c), eqv(P.get(r, c), self.want(r, c))), Implies(Not(done(sv, c)), eqv(P.get(r, c), self.x.get(r, c))))))
            out.append((f"{nm}: finished columns are residuals, the rest unchanged", res))
        return out


CONTRACTS = [Sinks(), Exos(), RemoveEffect()]
