"""C01: the causal order is a permutation and every matrix respects it."""
import numpy as np
import pandas as pd

import lingam
from rt.base import *


def degenerate(rng, kind, n, m):
    X = make_data(rng, n, m)
    if kind == "scaled":
        X = X * np.logspace(-6, 6, n)
    elif kind == "shifted":
        X = X + np.logspace(0, 6, n)
    elif kind == "integer":
        X = np.round(X * 3).astype(int)
    elif kind == "binary":
        X = (X > 0).astype(float)
    elif kind == "duplicate":
        X[:, n - 1] = X[:, 0]
    elif kind == "collinear":
        X[:, n - 1] = X[:, :-1].sum(axis=1)
    elif kind == "constant":
        X[:, n // 2] = 3.0
    elif kind == "gauss":
        X = make_data(rng, n, m, "gauss")
    elif kind == "independent":
        X = rng.uniform(size=(m, n))
    elif kind == "fortran":
        X = np.asfortranarray(X)
    return X


KINDS = ["scaled", "shifted", "integer", "binary", "duplicate", "collinear", "constant", "gauss",
         "independent", "fortran"]


def check_model(h, order, B, n, what=""):
    h.check(order is not None and is_perm(order, n), what + "causal order is a permutation", order=order)
    B = np.asarray(B)
    h.check(B.shape == (n, n), what + "matrix is n x n", shape=B.shape)
    h.check(np.all(np.diag(B) == 0), what + "zero diagonal", B=B)
    h.check(respects(B, order), what + "nonzero only from earlier to later variable", B=B, order=order)


def run(h):
    def single(group, make, ns, ms, reps, noises=("uniform",), **kw):
        for n in ns:
            for m in ms:
                for noise in noises:
                    for r in range(reps):
                        @h.do(group, n=n, m=m, noise=noise, rep=r, **kw)
                        def _():
                            rng = h.rng(group, n, m, noise, r)
                            X = make_data(rng, n, m, noise, p=[.6, 1.0, .2, 0.8][r % 4])
                            mod = make()
                            out = mod.fit(pd.DataFrame(X) if r % 2 else X)
                            h.check(out is mod, "fit returns the model")
                            check_model(h, mod.causal_order_, mod.adjacency_matrix_, n)

    def refit(group, make, n1, n2, m):
        @h.do(group, n1=n1, n2=n2, m=m)
        def _():
            rng = h.rng(group, n1, n2)
            mod = make()
            mod.fit(make_data(rng, n1, m))
            mod.fit(make_data(rng, n2, m))
            check_model(h, mod.causal_order_, mod.adjacency_matrix_, n2)
            mod.fit(make_data(rng, n1, m))
            check_model(h, mod.causal_order_, mod.adjacency_matrix_, n1)

    def degen(group, make, n, m, kinds=KINDS):
        for kind in kinds:
            for k in range(h.pick(2, 5)):
                @h.do(group, kind=kind, n=n + k, m=m)
                def _():
                    rng = h.rng(group, kind, n + k)
                    X = degenerate(rng, kind, n + k, m)
                    mod = make()
                    try:
                        mod.fit(X)
                    except Exception:
                        return            # C01 speaks about successful fits
                    check_model(h, mod.causal_order_, mod.adjacency_matrix_, n + k)

    noises = ("uniform", "exp", "laplace", "gauss")
    R = h.pick(2, 8)
    single("DirectLiNGAM pwling", lambda: lingam.DirectLiNGAM(), (1, 2, 3, 4, 5, 7), (15, 60, 200), R, noises)
    single("DirectLiNGAM kernel", lambda: lingam.DirectLiNGAM(measure="kernel"), (1, 2, 3, 4), (20,), R, noises[:2])
    single("DirectLiNGAM kernel more samples", lambda: lingam.DirectLiNGAM(measure="kernel"), (3,), (60,), 1)
    single("ICALiNGAM", lambda: lingam.ICALiNGAM(random_state=0), (2, 3, 4, 5, 6, 8), (60, 200), R + 2, noises)
    single("ICALiNGAM few iterations", lambda: lingam.ICALiNGAM(random_state=0, max_iter=1), (2, 3, 5, 8), (60,), R + 2, noises)
    for J, K, al in ((3, 4, 0.5), (3, 3, 0.0), (4, 4, 1.0), (5, 2, 0.3)):
        single("HighDimDirectLiNGAM", lambda: lingam.HighDimDirectLiNGAM(J=J, K=K, alpha=al), (2, 3, 4, 5, 6, 7, 9),
               (30, 100), R, ("exp", "uniform"), J=J, K=K, alpha=al)
    single("HighDimDirectLiNGAM fewer samples", lambda: lingam.HighDimDirectLiNGAM(), (12, 15), (10, 12), R, ("exp", "uniform"))
    for n in (2, 4, 6):
        @h.do("HighDimDirectLiNGAM order only", n=n)
        def _():
            X = make_data(h.rng("hdo", n), n, 80, "exp")
            mod = lingam.HighDimDirectLiNGAM(estimate_adj_mat=False).fit(X)
            h.check(is_perm(mod.causal_order_, n), "causal order is a permutation", order=mod.causal_order_)

    for mk, g in ((lambda: lingam.DirectLiNGAM(), "DirectLiNGAM"), (lambda: lingam.ICALiNGAM(random_state=1), "ICALiNGAM"),
                  (lambda: lingam.HighDimDirectLiNGAM(), "HighDim")):
        refit(g + " refit", mk, 4, 6, 80)
        refit(g + " refit", mk, 6, 3, 80)
        degen(g + " degenerate data", mk, 4, 80)

    # multi group
    for n in (2, 3, 4, 5):
        for g in (2, 3, 4):
            for r in range(h.pick(2, 6)):
                @h.do("MultiGroupDirectLiNGAM", n=n, groups=g, rep=r)
                def _():
                    rng = h.rng("mg", n, g, r)
                    B, p = random_dag(rng, n)
                    Xs = [sem_data(rng, B * (rng.uniform(.6, 1.6, B.shape)), p, 60 + 30 * k, "uniform") for k in range(g)]
                    mod = lingam.MultiGroupDirectLiNGAM()
                    h.check(mod.fit(list(Xs)) is mod, "fit returns the model")
                    As = mod.adjacency_matrices_
                    h.check(len(As) == g, "one matrix per group")
                    order = mod.causal_order_
                    for k in range(g):
                        check_model(h, order, As[k], n, f"group {k}: ")
                    # group k's matrix is that of the same order estimated on group k alone
                    pk = -np.ones((n, n), int)
                    for a in range(n):
                        for b in range(a):
                            pk[order[b], order[a]] = 0
                    for k in range(g):
                        one = lingam.DirectLiNGAM(prior_knowledge=pk).fit(Xs[k])
                        h.check(list(one.causal_order_) == list(order), "order fixed by prior knowledge",
                                order=order, got=one.causal_order_)
                        h.check(np.allclose(one.adjacency_matrix_, As[k]), f"matrix {k} is the one of group {k}",
                                A=As[k], expected=one.adjacency_matrix_)

    @h.do("MultiGroupDirectLiNGAM refit")
    def _():
        rng = h.rng("mgr")
        mod = lingam.MultiGroupDirectLiNGAM()
        for n, g in ((3, 3), (5, 2), (2, 2)):
            mod.fit([make_data(rng, n, 50) for _ in range(g)])
            h.check(len(mod.adjacency_matrices_) == g, "one matrix per group")
            for A in mod.adjacency_matrices_:
                check_model(h, mod.causal_order_, A, n)

    # RESIT
    from sklearn.linear_model import LinearRegression
    from sklearn.tree import DecisionTreeRegressor
    regs = {"linear": lambda: LinearRegression(), "tree": lambda: DecisionTreeRegressor(max_depth=3, random_state=0)}
    for rn, rg in regs.items():
        for al in (0.0, 0.01, 0.3, 1.0, 2.0):
            for n in (1, 2, 3, 4, 5, 6):
                for r in range(h.pick(1, 4)):
                    @h.do("RESIT", n=n, alpha=al, reg=rn, rep=r)
                    def _():
                        rng = h.rng("resit", n, rn, r)
                        X = make_data(rng, n, 50)
                        if rn == "tree":
                            X = np.tanh(X) + .1 * X ** 2
                        mod = lingam.RESIT(rg(), alpha=al)
                        h.check(mod.fit(X) is mod, "fit returns the model")
                        check_model(h, mod.causal_order_, mod.adjacency_matrix_, n)
                        h.check(np.all(np.isin(mod.adjacency_matrix_, [0, 1])), "RESIT matrix is 0/1")


if __name__ == "__main__":
    main("C01", run)
