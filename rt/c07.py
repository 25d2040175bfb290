"""C07: CAM-UV results are consistent and honour prior knowledge."""
import itertools

import numpy as np
import pandas as pd

import lingam
from rt.base import *
from rt.c06 import confounded


def check_matrix(h, B, n, pk):
    B = np.asarray(B)
    h.check(B.shape == (n, n), "matrix is n x n", got=B.shape)
    h.check(np.all(np.diag(B) == 0), "zero diagonal", B=B)
    nan = np.isnan(B)
    h.check(np.all(np.isin(B[~nan], [0, 1])), "entries are 0, 1 or NaN", B=B)
    h.check(np.array_equal(nan, nan.T), "NaN entries are symmetric", B=B)
    h.check(not np.any((B == 1) & (B.T == 1)), "no two variables are parents of each other", B=B)
    for a, b in pk or []:
        h.check(not B[b, a] == 1, "prior knowledge: excluded cause is not a parent", pair=(a, b), B=B)


def run(h):
    KW = [dict(), dict(num_explanatory_vals=3), dict(num_explanatory_vals=1), dict(alpha=0.0), dict(alpha=.25),
          dict(independence="fcorr"), dict(independence="fcorr", ind_corr=.2), dict(independence="fcorr", ind_corr=2.0),
          dict(alpha=2.0), dict(num_explanatory_vals=4)]

    def pks(rng, n, r):
        prs = list(itertools.permutations(range(n), 2))
        if r % 3 == 0 or not prs:
            return None
        k = rng.randint(1, len(prs) + 1)
        pk = [prs[i] for i in rng.permutation(len(prs))[:k]]
        return [pk, np.array(pk), tuple(pk), [list(p) for p in pk]][r % 4]

    for n in (1, 2, 3, 4):
        for r in range(h.pick({1: 2, 2: 30, 3: 120, 4: 90}[n], {1: 2, 2: 40, 3: 200, 4: 120}[n])):
            @h.do("CAMUV varied outcomes", n=n, rep=r)
            def _():
                rng = h.rng("v", n, r)
                X = confounded(rng, n, 26) if n > 1 else rng.exponential(size=(30, 1))
                pk = pks(rng, n, r)
                kw = dict(KW[(r // 3) % len(KW)])
                with oracle_tests(r, levels=(0.0, 0.005, 0.1, 0.3, 0.4, 0.8, 1.0)):
                    mod = lingam.CAMUV(prior_knowledge=pk, **kw)
                    h.check(mod.fit(pd.DataFrame(X) if r % 2 else X) is mod, "fit returns the model")
                check_matrix(h, mod.adjacency_matrix_, n, [] if pk is None else [tuple(int(v) for v in p) for p in pk])
            if r < h.pick(30, 90):
                @h.do("MultiGroupCAMUV varied outcomes", n=n, rep=r)
                def _():
                    rng = h.rng("m", n, r)
                    Xs = [confounded(rng, n, 26 + k) if n > 1 else rng.exponential(size=(30, 1)) for k in range(2 + r % 2)]
                    pk = pks(rng, n, r)
                    kw = dict(KW[(r // 3) % len(KW)])
                    with oracle_tests(r, levels=(0.0, 0.02, 0.1, 0.3, 0.4, 0.8, 1.0)):
                        mod = lingam.MultiGroupCAMUV(prior_knowledge=pk, **kw)
                        h.check(mod.fit(Xs) is mod, "fit returns the model")
                    check_matrix(h, mod.adjacency_matrix_, n, [] if pk is None else [tuple(int(v) for v in p) for p in pk])

    # histories in which pairs are dependent and joint tests accept: several parents are adopted at once
    for n in (3, 4):
        for r in range(h.pick(40, 200)):
            @h.do("several parents at once", n=n, rep=r)
            def _():
                rng = h.rng("j", n, r)
                prs = list(itertools.permutations(range(n), 2))
                pk = [prs[i] for i in rng.permutation(len(prs))[:rng.randint(1, n + 2)]]
                X = confounded(rng, n, 26)
                with oracle_tests(r, levels=(0.0, 0.004, 0.3, 0.5, 0.6, 0.9), joint=([.8, .9, .6][r % 3], .2)):
                    mod = lingam.CAMUV(prior_knowledge=pk, num_explanatory_vals=3 + r % 2).fit(X)
                    check_matrix(h, mod.adjacency_matrix_, n, pk)
                    if r % 4 == 0:
                        mod = lingam.MultiGroupCAMUV(prior_knowledge=pk, num_explanatory_vals=3).fit([X, confounded(rng, n, 28)])
                        check_matrix(h, mod.adjacency_matrix_, n, pk)

    # real tests
    for n in (2, 3):
        for ki, kw in enumerate(KW[:7]):
            @h.do("CAMUV", n=n, kw=kw)
            def _():
                rng = h.rng("r", n, ki)
                X = confounded(rng, n, 60)
                X = X + np.tanh(X) * .5
                for pk in (None, [(0, 1)], [(1, 0), (0, 1)], [(0, n - 1)]):
                    mod = lingam.CAMUV(prior_knowledge=pk, **kw).fit(X)
                    check_matrix(h, mod.adjacency_matrix_, n, pk)
                mg = lingam.MultiGroupCAMUV(prior_knowledge=[(0, 1)], **kw).fit([X, X[:50] * 2])
                check_matrix(h, mg.adjacency_matrix_, n, [(0, 1)])
    for r in range(h.pick(3, 10)):
        @h.do("strong edge excluded by prior knowledge", rep=r)
        def _():
            rng = h.rng("s", r)
            x = rng.uniform(-1, 1, 120)
            y = np.sin(2 * x) * 2 + .2 * rng.uniform(-1, 1, 120)
            z = (y ** 2 + .2 * rng.uniform(-1, 1, 120))
            X = np.column_stack([x, y, z])[:, rng.permutation(3)]
            full = lingam.CAMUV(num_explanatory_vals=2).fit(X)
            check_matrix(h, full.adjacency_matrix_, 3, None)
            for i, j in zip(*np.where(full.adjacency_matrix_ == 1)):
                for more in ([], [(a, b) for a, b in itertools.permutations(range(3), 2) if a != j]):
                    pk = [(int(j), int(i))] + more
                    mod = lingam.CAMUV(prior_knowledge=pk).fit(X)
                    check_matrix(h, mod.adjacency_matrix_, 3, pk)

    for cls in (lingam.CAMUV, lingam.MultiGroupCAMUV):
        for kw in (dict(alpha=-.01), dict(alpha=-1), dict(num_explanatory_vals=0), dict(num_explanatory_vals=-2),
                   dict(independence="HSIC"), dict(independence=""), dict(independence=None), dict(ind_corr=-.1)):
            @h.do("refused settings", model=cls.__name__, kw=kw)
            def _():
                h.raises(ValueError, lambda: cls(**kw), f"{kw} refused")
        for kw in (dict(alpha=0), dict(alpha=.5), dict(num_explanatory_vals=1), dict(independence="hsic"), dict(independence="fcorr"), dict(ind_corr=0.0)):
            @h.do("accepted settings", model=cls.__name__, kw=kw)
            def _():
                cls(**kw)


if __name__ == "__main__":
    main("C07", run)
