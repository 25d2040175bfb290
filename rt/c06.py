"""C06: RCD family: ancestor sets, NaN pairs and coefficients are mutually consistent."""
import numpy as np
import pandas as pd

import lingam
from lingam.utils import extract_ancestors
from rt.base import *


def check_ancestors(h, M, n):
    h.check(len(M) == n, "one ancestor set per variable", got=len(M))
    S = [set(int(v) for v in s) for s in M]
    for i in range(n):
        h.check(all(0 <= v < n for v in S[i]), "ancestors are variable indices", var=i, got=S[i])
        h.check(i not in S[i], "no variable is its own ancestor", var=i, M=S)
    for i in range(n):
        for j in range(n):
            h.check(not (i in S[j] and j in S[i]), "no two variables are ancestors of each other", pair=(i, j), M=S)
    return S


def check_matrix(h, B, S, X, what=""):
    n = X.shape[1]
    B = np.asarray(B)
    h.check(B.shape == (n, n), what + "matrix is n x n", got=B.shape)
    nan = np.isnan(B)
    h.check(np.array_equal(nan, nan.T), what + "NaN marks pairs symmetrically", B=B)
    h.check(np.all(np.diag(B) == 0), what + "zero diagonal", B=B)
    for i in range(n):
        par = [j for j in range(n) if not nan[i, j] and B[i, j] != 0]
        for j in par:
            h.check(j in S[i], what + "coefficients go from an ancestor to its descendant", edge=(j, i), M=S, B=B)
        if par:
            A = np.column_stack([X[:, par] - X[:, par].mean(0)])
            co = np.linalg.lstsq(A, X[:, i] - X[:, i].mean(), rcond=None)[0]
            h.check(np.allclose(co, B[i, par], rtol=1e-5, atol=1e-7), what + "coefficients are the regression on the parents",
                    var=i, parents=par, got=B[i, par], expected=co)


def confounded(rng, n, m, noise="exp"):
    """a DAG with one hidden common cause of some variables"""
    B, p = random_dag(rng, n + 1, .6)
    hid = p[0]
    X = sem_data(rng, B, p, m, noise)
    return np.delete(X, hid, axis=1)


def run(h):
    def one(X, kw, oracle):
        n = X.shape[1]
        mod = lingam.RCD(**kw)
        h.check(mod.fit(X) is mod, "fit returns the model")
        S = check_ancestors(h, mod.ancestors_list_, n)
        check_matrix(h, mod.adjacency_matrix_, S, np.asarray(X))

    def many(Xs, kw):
        n = Xs[0].shape[1]
        mod = lingam.MultiGroupRCD(**kw)
        h.check(mod.fit(list(Xs)) is mod, "fit returns the model")
        S = check_ancestors(h, mod.ancestors_list_, n)
        Bs = mod.adjacency_matrices_
        h.check(len(Bs) == len(Xs), "one matrix per group")
        for k, B in enumerate(Bs):
            check_matrix(h, B, S, np.asarray(Xs[k]), f"group {k}: ")
            h.check(np.array_equal(np.isnan(B), np.isnan(Bs[0])), "same NaN pairs in every group", group=k)
            h.check(np.array_equal(B != 0, Bs[0] != 0), "same possible edges in every group", group=k)

    KW = [dict(), dict(max_explanatory_num=1), dict(max_explanatory_num=3), dict(ind_alpha=0.0), dict(ind_alpha=0.5),
          dict(cor_alpha=0.2), dict(shapiro_alpha=1.0), dict(independence="fcorr"), dict(independence="fcorr", ind_corr=0.25)]
    # outcomes of all tests varied: many histories of decisions
    for n in (1, 2, 3, 4, 5):
        for r in range(h.pick({1: 2, 2: 10, 3: 25, 4: 25, 5: 12}[n], {1: 2, 2: 20, 3: 200, 4: 200, 5: 80}[n])):
            for stats in (False, True):
                @h.do("RCD varied outcomes", n=n, rep=r, stats=stats)
                def _():
                    rng = h.rng("v", n, r)
                    X = confounded(rng, n, 30) if n > 1 else rng.exponential(size=(30, 1))
                    kw = dict(KW[r % len(KW)], shapiro_alpha=1.0, MLHSICR=False)
                    if r % 4 == 3:
                        kw["max_explanatory_num"] = 4
                    with oracle_tests((r, stats), stats=stats):
                        one(X, kw, True)
            @h.do("extract_ancestors varied outcomes", n=n, rep=r)
            def _():
                rng = h.rng("e", n, r)
                X = confounded(rng, n, 30) if n > 1 else rng.exponential(size=(30, 1))
                with oracle_tests(r, stats=bool(r % 2)):
                    M = extract_ancestors(X, shapiro_alpha=1.0, MLHSICR=False, max_explanatory_num=1 + r % 4,
                                          cor_alpha=[.01, .5][r % 2])
                check_ancestors(h, M, n)
            for g in (2, 3):
                if r >= h.pick(8, 60):
                    continue
                @h.do("MultiGroupRCD varied outcomes", n=n, rep=r, groups=g)
                def _():
                    rng = h.rng("m", n, r, g)
                    Xs = [confounded(rng, n, 25 + 5 * k) if n > 1 else rng.exponential(size=(30, 1)) for k in range(g)]
                    kw = dict(KW[r % len(KW)], shapiro_alpha=1.0, MLHSICR=False)
                    with oracle_tests((r, g), levels=(0.0, 0.02, .1, .3, .6, 1.0), stats=bool(r % 2)):
                        many(Xs, kw)

    # the real tests
    for n in (2, 3, 4):
        for ki, kw in enumerate(KW):
            for r in range(h.pick(1, 5)):
                @h.do("RCD", n=n, kw=kw, rep=r)
                def _():
                    rng = h.rng("r", n, r, ki)
                    X = confounded(rng, n, 80, ["exp", "uniform"][r % 2])
                    one(pd.DataFrame(X) if r % 2 else X, kw, False)
                @h.do("MultiGroupRCD", n=n, kw=kw, rep=r)
                def _():
                    rng = h.rng("g", n, r, ki)
                    B, p = random_dag(rng, n + 1)
                    Xs = [np.delete(sem_data(rng, B * rng.uniform(.7, 1.3, B.shape), p, 70 + 20 * k, "exp"), p[0], axis=1) for k in range(2)]
                    many(Xs, dict(kw, MLHSICR=False))
            @h.do("extract_ancestors", n=n, kw=kw)
            def _():
                rng = h.rng("a", n, ki)
                k2 = {k: v for k, v in kw.items() if k not in ("independence", "ind_corr")}
                check_ancestors(h, extract_ancestors(confounded(rng, n, 80), MLHSICR=False, **k2), n)
    for r in range(h.pick(2, 8)):
        @h.do("MLHSICR", rep=r)
        def _():
            rng = h.rng("hs", r)
            X = confounded(rng, 3, 40)
            one(X, dict(MLHSICR=True, shapiro_alpha=1.0, cor_alpha=.5), False)
            check_ancestors(h, extract_ancestors(X, shapiro_alpha=1.0, cor_alpha=.5), 3)
            many([X, X[::-1] * 2.0], dict(MLHSICR=True, shapiro_alpha=1.0, cor_alpha=.5))

    # multi-group with fcorr: a group that is dependent must be able to prevent independence,
    # wherever it is in the list
    for r in range(h.pick(4, 12)):
        @h.do("fcorr group order", rep=r)
        def _():
            rng = h.rng("fo", r)
            Xs = [confounded(rng, 3, 60) for _ in range(3)]
            with oracle_tests(r, levels=(.1, .2, .3, .7, .8)):
                a = lingam.MultiGroupRCD(independence="fcorr", shapiro_alpha=1.0, cor_alpha=.5, MLHSICR=False).fit([Xs[i] for i in (0, 1, 2)])
                b = lingam.MultiGroupRCD(independence="fcorr", shapiro_alpha=1.0, cor_alpha=.5, MLHSICR=False).fit([Xs[i] for i in (2, 0, 1)])
            h.check([set(x) for x in a.ancestors_list_] == [set(x) for x in b.ancestors_list_], "result independent of the order of the groups",
                    a=a.ancestors_list_, b=b.ancestors_list_)

    @h.do("refit")
    def _():
        rng = h.rng("rf")
        mod = lingam.RCD(shapiro_alpha=1.0)
        mg = lingam.MultiGroupRCD(shapiro_alpha=1.0, MLHSICR=False)
        for n in (4, 2, 3):
            X = confounded(rng, n, 40)
            mod.fit(X)
            check_matrix(h, mod.adjacency_matrix_, check_ancestors(h, mod.ancestors_list_, n), X)
            Xs = [X, X[::-1] + 1.0]
            mg.fit(Xs)
            S = check_ancestors(h, mg.ancestors_list_, n)
            h.check(len(mg.adjacency_matrices_) == 2, "one matrix per group")
            for B, x in zip(mg.adjacency_matrices_, Xs):
                check_matrix(h, B, S, x)


if __name__ == "__main__":
    main("C06", run)
