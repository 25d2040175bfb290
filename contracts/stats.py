"""C14: the statistics used inside the estimators only read their arguments."""
import z3

from pyvc.values import *
from pyvc.verify import Contract


class HsicPure(Contract):
    """hsic_test_gamma returns two numbers and modifies nothing"""
    qual = "lingam.hsic:hsic_test_gamma"
    props = ("C14", "C01", "C06", "C07", "C08")
    root = True
    cases = ("columns", "vectors")

    def setup(self, S, case):
        m = S.size("m")
        if case == "vectors":
            return None, [S.seq("arr", "float", nm="a", n=m), S.seq("arr", "float", nm="b", n=m), StrS(S.ex.fint("bw"))], {}
        return None, [S.arr(m, S.size("p"), nm="a"), S.arr(m, S.size("q"), nm="b"), StrS(S.ex.fint("bw"))], {}

    def modifies(self, ctx):
        return set()

    def result(self, ctx):
        return (ctx.ex.ffl("stat"), ctx.ex.ffl("p"))


class FCorrPure(Contract):
    qual = "lingam.utils._f_correlation:f_correlation"
    props = ("C14", "C01", "C06", "C07", "C08")
    root = True
    cases = ("columns", "vectors")

    setup0 = HsicPure.setup

    def setup(self, S, case):
        a, b, c = HsicPure.setup(self, S, case)
        return a, b[:2], c

    def modifies(self, ctx):
        return set()

    def result(self, ctx):
        return ctx.ex.ffl("fcorr")


CONTRACTS = [HsicPure(), FCorrPure()]
