"""C08: BottomUpParceLiNGAM: every variable once, NaN exactly inside the unknown block."""
import itertools

import numpy as np
import pandas as pd

import lingam
from lingam.utils import make_prior_knowledge
from rt.base import *
from rt.c06 import confounded


def check_result(h, mod, n, pk=None, strict=True):
    order = mod.causal_order_
    h.check(order is not None and len(order) > 0, "order reported")
    block = []
    for i, o in enumerate(order):
        if hasattr(o, "__iter__"):
            h.check(i == 0, "only the first element is a list", order=order)
            block = [int(v) for v in o]
            h.check(len(block) >= 2, "the unknown block has at least two variables", order=order)
    flat = block + [int(o) for o in order if not hasattr(o, "__iter__")]
    h.check(sorted(flat) == list(range(n)), "every variable exactly once", order=order)
    B = np.asarray(mod.adjacency_matrix_)
    h.check(B.shape == (n, n), "matrix is n x n", got=B.shape)
    h.check(np.all(np.diag(B) == 0), "zero diagonal", B=B)
    pos = {v: (0 if v in block else k) for k, v in enumerate(flat)}
    for i, j in itertools.product(range(n), repeat=2):
        inblk = i != j and i in block and j in block
        h.check(np.isnan(B[i, j]) == inblk, "NaN exactly between two variables of the block", pair=(i, j), order=order, B=B)
        if not inblk and B[i, j] != 0:
            h.check(pos[j] < pos[i], "nonzero only from an earlier to a later variable", pair=(i, j), order=order, B=B)
    if pk is not None:
        for i, j in itertools.product(range(n), repeat=2):
            if i == j:
                continue
            if pk[i, j] == 0 and not np.isnan(B[i, j]):
                h.check(B[i, j] == 0, "an excluded path has no coefficient", pair=(i, j), pk=pk, B=B)
            if pk[i, j] == 1:
                h.check(pos[j] <= pos[i], "a required path is never reversed", path=(j, i), order=order, pk=pk)
            if strict and pk[i, j] == 0 and pk[j, i] != 0:
                h.check(pos[i] <= pos[j], "target of an excluded path is not later than its source", pair=(i, j), order=order, pk=pk)
    return block


def random_pk(rng, n, r):
    """consistent with a random order"""
    p = list(rng.permutation(n))
    pk = -np.ones((n, n), int)
    for a in range(n):
        for b in range(n):
            if a == b:
                continue
            u = rng.rand()
            if p.index(a) > p.index(b):
                if u < .35:
                    pk[a, b] = 1
                elif u < .5 and r % 2:
                    pk[a, b] = pk[b, a] = 0
            elif u < .4 and pk[a, b] == -1:
                pk[a, b] = 0
    return pk


def run(h):
    LV = [(0.0, 1e-4, 0.005, 0.02, 0.3, 0.6, 1.0), (0.0,), (0.0, 1.0), (0.02, .04, .3), (1.0,), (0.0, 0.0, 0.5)]
    nblocks = [0, 0]
    for n in (2, 3, 4, 5, 6):
        for r in range(h.pick({2: 12, 3: 40, 4: 40, 5: 24, 6: 6}[n], {2: 60, 3: 300, 4: 300, 5: 150, 6: 40}[n])):
            for lv in range(len(LV)):
                if n > 3 and lv != r % len(LV):
                    continue
                @h.do("varied outcomes", n=n, rep=r, levels=lv)
                def _():
                    rng = h.rng("v", n, r)
                    X = confounded(rng, n, 40)
                    pk = random_pk(rng, n, r) if r % 3 else None
                    kw = [dict(), dict(alpha=0.0), dict(alpha=.5), dict(independence="fcorr"), dict(independence="fcorr", ind_corr=.25),
                          dict(alpha=1.0)][(r // 3) % 6]
                    with oracle_tests((r, lv), levels=LV[lv]):
                        mod = lingam.BottomUpParceLiNGAM(prior_knowledge=pk, **kw)
                        h.check(mod.fit(pd.DataFrame(X) if r % 2 else X) is mod, "fit returns the model")
                    check_result(h, mod, n, pk)

    for n in (2, 3, 4):
        for r in range(h.pick(4, 20)):
            @h.do("real tests", n=n, rep=r)
            def _():
                from sklearn.linear_model import LinearRegression
                rng = h.rng("r", n, r)
                X = confounded(rng, n, 100)
                for kw in (dict(), dict(alpha=0.0), dict(alpha=.9), dict(independence="fcorr"), dict(regressor=LinearRegression())):
                    for pk in (None, make_prior_knowledge(n, sink_variables=[n - 1]), make_prior_knowledge(n, exogenous_variables=[0]),
                               make_prior_knowledge(n, paths=[[1, 0]])):
                        check_result(h, lingam.BottomUpParceLiNGAM(prior_knowledge=pk, **kw).fit(X), n, pk)

    for n in (3, 4):
        @h.do("p-values that underflow to zero", n=n)
        def _():
            rng = h.rng("z", n)
            t = rng.uniform(-1, 1, 1500)
            X = np.column_stack([np.abs(t), t ** 2, np.abs(t) ** .5, t ** 4])[:, :n] + 1e-4 * rng.normal(size=(1500, n))
            mod = lingam.BottomUpParceLiNGAM().fit(X)
            h.check(len(check_result(h, mod, n)) > 0, "strongly confounded variables stay unordered", order=mod.causal_order_)
            pk = make_prior_knowledge(n, no_paths=[[0, 1]])
            check_result(h, lingam.BottomUpParceLiNGAM(prior_knowledge=pk).fit(X), n, pk)

    # decision per step: all outcomes 0 must leave everything unordered, all outcomes 1 must order everything
    for n in (2, 3, 4, 5):
        @h.do("extreme outcomes", n=n)
        def _():
            X = confounded(h.rng("x", n), n, 40)
            with oracle_tests(0, levels=(0.0,)):
                mod = lingam.BottomUpParceLiNGAM().fit(X)
            h.check(len(check_result(h, mod, n)) == n, "rejected everywhere: all variables unknown", order=mod.causal_order_)
            with oracle_tests(0, levels=(1.0,)):
                mod = lingam.BottomUpParceLiNGAM().fit(X)
            h.check(len(check_result(h, mod, n)) == 0, "never rejected: complete order", order=mod.causal_order_)
            with oracle_tests(0, levels=(0.0, .4)):
                mod = lingam.BottomUpParceLiNGAM(alpha=0.0).fit(X)
            h.check(len(check_result(h, mod, n)) == 0, "alpha=0: no rejection", order=mod.causal_order_)

    @h.do("refit")
    def _():
        rng = h.rng("rf")
        pk = make_prior_knowledge(3, paths=[[2, 0]], no_paths=[[1, 2]])
        a, b = lingam.BottomUpParceLiNGAM(), lingam.BottomUpParceLiNGAM(prior_knowledge=pk)
        for k in range(3):
            for n in (3, 4, 2):
                check_result(h, a.fit(confounded(rng, n, 50)), n)
            check_result(h, b.fit(confounded(rng, 3, 50)), 3, pk)
    for bad in ([[2, 0], [0, 2]], [[0, 1], [1, 0]]):
        @h.do("contradictory prior knowledge", paths=bad)
        def _():
            pk = make_prior_knowledge(3, paths=bad)
            h.raises(ValueError, lambda: lingam.BottomUpParceLiNGAM(prior_knowledge=pk).fit(confounded(h.rng("c"), 3, 40)), "two opposite required paths refused")


if __name__ == "__main__":
    main("C08", run)
