"""Assumed contracts: functions whose numerical content is outside the verifier's reach.  They are never counted as
proved; every use is listed among the assumptions."""
import z3

from pyvc import models
from pyvc.values import *
from pyvc.verify import Contract

HP = z3.Function("HSIC_P", models.VEC, models.VEC, R)
HPN = z3.Function("HSIC_P_NAN", models.VEC, models.VEC, BS)


class Trusted(Contract):
    trusted = True
    props = ("C16",)
    note = ""


def column(a):
    """the single column of an (n, 1) array or an n-vector, and its length"""
    if isinstance(a, ArrV) and a.ndim == 2:
        return (lambda r: a.get(r, 0)), a.shape[0]
    if isinstance(a, SeqV) and a.kind == "arr":
        return a.get, a.n
    raise Unsupported("hsic argument")


def hsic(a, b):
    (f, n), (g, m) = column(a), column(b)
    x, y = models.lam(f, n), models.lam(g, m)
    return Fl(HP(x, y), HPN(x, y))


class HsicTestGamma(Trusted):
    qual = "lingam.hsic:hsic_test_gamma"
    note = "hsic_test_gamma: the p-value is a function of the two samples; arguments are not modified (the latter proved under C14)"

    def pre(self, ctx):
        a, b = ctx.pval(0), ctx.pval(1)
        column(a), column(b)
        for x in (a, b):
            if isinstance(x, ArrV) and not (isinstance(x.shape[1], int) and x.shape[1] == 1):
                raise Unsupported("hsic of a matrix")
        return []

    def result(self, ctx):
        ctx.ex.assumptions.add("assumed contract: " + self.note)
        fams = getattr(ctx.ex.hints, "vector_families", None)
        if fams:
            for x in (ctx.pval(0), ctx.pval(1)):
                for ax in models.ext_lemma(*column(x), fams()):
                    ctx.ex.assume(ax)
        return (ctx.ex.ffl("stat"), hsic(ctx.pval(0), ctx.pval(1)))


TE = z3.Function("TOTAL_EFFECT", models.VEC, I, I, R)
TEN = z3.Function("TOTAL_EFFECT_NAN", models.VEC, I, I, BS)


def total_effect(B, src, dst):
    m = models.lam(B.get, tuple(B.shape), 2)
    return Fl(TE(m, as_int(src), as_int(dst)), TEN(m, as_int(src), as_int(dst)))


class TotalEffect(Trusted):
    qual = "lingam.utils:calculate_total_effect"
    arity = 4
    props = ("C13",)
    note = "calculate_total_effect: its value is a function of the matrix and the two indices (what that value is: C03); the matrix is not modified"

    def pre(self, ctx):
        B = ctx.pval(0)
        if not (isinstance(B, ArrV) and B.ndim == 2 and is_int(ctx.pval(1)) and is_int(ctx.pval(2))):
            raise Unsupported("total effect arguments")
        if ctx.pval(3) is not None:
            raise Unsupported("is_continuous given")
        return []

    def result(self, ctx):
        ctx.ex.assumptions.add("assumed contract: " + self.note)
        return total_effect(ctx.pval(0), ctx.pval(1), ctx.pval(2))


CONTRACTS = [HsicTestGamma(), TotalEffect()]
