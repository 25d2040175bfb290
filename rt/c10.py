"""C10: longitudinal results are placed at the right time point and lag."""
import itertools

import numpy as np
import pandas as pd

import lingam
from rt.base import *
from rt.c04 import unroll_t


def data(rng, T, m, n, lags):
    Xs = []
    for t in range(T):
        B, p = random_dag(rng, n, .7)
        E = rng.laplace(size=(m, n))
        for k in range(min(lags, t)):
            E = E + Xs[t - k - 1] @ (rng.uniform(-.6, .6, (n, n)) / (k + 1)).T
        Xs.append(np.linalg.solve(np.eye(n) - B, E.T).T)
    return Xs


def check_fit(h, mod, Xs, lags):
    T, (m, n) = len(Xs), Xs[0].shape
    A = np.asarray(mod.adjacency_matrices_)
    h.check(A.shape == (T, lags + 1, n, n), "one matrix per time point and lag", got=A.shape)
    h.check(len(mod.causal_orders_) == T, "one order per time point")
    for t in range(T):
        if t < lags:
            h.check(np.isnan(A[t]).all(), "time points without enough history are all NaN", t=t, got=A[t])
            h.check(len(mod.causal_orders_[t]) == n and all(np.isnan(v) for v in mod.causal_orders_[t]), "no order without enough history", t=t)
        else:
            h.check(np.isfinite(A[t]).all(), "finite matrices with enough history", t=t)
            o = mod.causal_orders_[t]
            h.check(is_perm(o, n), "order is a permutation", t=t, order=o)
            h.check(respects(A[t, 0], o) and np.all(np.diag(A[t, 0]) == 0), "instantaneous matrix respects the order", t=t, order=o, B=A[t, 0])
    return A


def check_equations(h, mod, A, Xs, lags):
    """B(t,t-k) = (I - B(t,t)) M(t,t-k) with M the regression on the predecessors; B(t,t) of the residuals"""
    T, (m, n) = len(Xs), Xs[0].shape
    for t in range(lags, T):
        D = np.column_stack([Xs[t - k - 1] for k in range(lags)])
        Dc, Yc = D - D.mean(0), Xs[t] - Xs[t].mean(0)
        M = np.linalg.lstsq(Dc, Yc, rcond=None)[0].T
        N = Xs[t] - D @ M.T
        ref = lingam.DirectLiNGAM().fit(N)
        h.check(np.allclose(A[t, 0], ref.adjacency_matrix_, atol=1e-6), "instantaneous matrix of that time point", t=t, got=A[t, 0], expected=ref.adjacency_matrix_)
        h.check([int(v) for v in mod.causal_orders_[t]] == [int(v) for v in ref.causal_order_], "order of that time point", t=t)
        for k in range(lags):
            e = (np.eye(n) - A[t, 0]) @ M[:, n * k:n * (k + 1)]
            h.check(np.allclose(A[t, k + 1], e, atol=1e-6), "lag matrix is (I - B(t,t)) M(t,t-k)", t=t, lag=k + 1, got=A[t, k + 1], expected=e)
        R = np.asarray(mod.residuals_[t])
        h.check(R.shape == (m, n) and np.allclose(R, N, atol=1e-6), "residuals of that time point", t=t)


def te_oracle(A, from_t, to_t, lags):
    U = unroll_t(A, from_t, to_t)
    return total_effects(U)


def check_te(h, mod, A, lags):
    T, _, n, _ = A.shape
    for ft in range(lags, T):
        for tt in range(ft, T):
            E = te_oracle(A, ft, tt, lags)
            for f, t in itertools.product(range(n), repeat=2):
                if ft == tt and f == t:
                    continue
                got = mod.estimate_total_effect2(ft, f, tt, t)
                exp = E[n * (tt - ft) + t, f]
                h.check(np.isclose(got, exp, atol=1e-8), "total effect sums the paths of the unrolled graph", frm=(ft, f), to=(tt, t), got=got, expected=exp)


def run(h):
    for T, lags, n in ((2, 1, 2), (3, 1, 3), (4, 2, 2), (3, 2, 3), (4, 3, 2), (5, 1, 2), (4, 1, 4)):
        for r in range(h.pick(3, 12)):
            @h.do("fit", T=T, lags=lags, n=n, rep=r)
            def _():
                rng = h.rng("f", T, lags, n, r)
                Xs = data(rng, T, [40, 80][r % 2], n, lags)
                if r % 3 == 1:
                    Xs = [x + 5 * (1 + t) for t, x in enumerate(Xs)]
                inp = [Xs, np.array(Xs), [pd.DataFrame(x) for x in Xs]][r % 3]
                mod = lingam.LongitudinalLiNGAM(n_lags=lags)
                h.check(mod.fit(inp) is mod, "fit returns the model")
                A = check_fit(h, mod, Xs, lags)
                check_equations(h, mod, A, Xs, lags)
                check_te(h, mod, A, lags)

            @h.do("fit with prior knowledge", T=T, lags=lags, n=n, rep=r)
            def _():
                rng = h.rng("pk", T, lags, n, r)
                Xs = data(rng, T, 60, n, lags)
                pk = -np.ones((T, lags + 1, n, n), int)
                for t in range(T):
                    p = list(rng.permutation(n))
                    for i, j in itertools.product(range(n), repeat=2):
                        if i != j and p.index(i) < p.index(j) and rng.rand() < .4:
                            pk[t, 0, i, j] = 0
                        for k in range(1, lags + 1):
                            if rng.rand() < .3:
                                pk[t, k, i, j] = rng.choice([0, 1]) if r % 2 else 0
                mod = lingam.LongitudinalLiNGAM(n_lags=lags, prior_knowledge=pk)
                mod.fit(Xs)
                A = check_fit(h, mod, Xs, lags)
                for t in range(lags, T):
                    for k in range(lags + 1):
                        h.check(np.all(A[t, k][pk[t, k] == 0] == 0), "excluded paths have no coefficient", t=t, lag=k, A=A[t, k], pk=pk[t, k])
                check_te(h, mod, A, lags)
                # blocks: compare with a single DirectLiNGAM on the stacked variables
                big = np.zeros((T * n, T * n))
                for t in range(T):
                    for k in range(min(lags, t) + 1):
                        big[t * n:(t + 1) * n, (t - k) * n:(t - k + 1) * n] = pk[t, k]
                ref = lingam.DirectLiNGAM(prior_knowledge=big).fit(np.column_stack(Xs))
                for t in range(lags, T):
                    for k in range(lags + 1):
                        e = ref.adjacency_matrix_[t * n:(t + 1) * n, (t - k) * n:(t - k + 1) * n]
                        h.check(np.allclose(A[t, k], e, atol=1e-6), "block of time point and lag", t=t, lag=k, got=A[t, k], expected=e)
                R = np.asarray(mod.residuals_)
                for t in range(lags, T):
                    e1 = (np.eye(n) - A[t, 0]) @ R[t].T
                    e2 = (np.eye(n) - A[t, 0]) @ Xs[t].T - sum(A[t, k] @ Xs[t - k].T for k in range(1, lags + 1))
                    h.check(np.allclose(e1, e2, atol=1e-6), "residuals N(t) with (I - B(t,t)) N(t) = e(t)", t=t)

        for S in (1, 3):
            for st in (None, lags):
                @h.do("bootstrap", T=T, lags=lags, n=n, S=S, start=st)
                def _():
                    rng = h.rng("b", T, lags, n, S)
                    Xs = data(rng, T, 40, n, lags)
                    cls = recording(lingam.LongitudinalLiNGAM)
                    mod = cls(n_lags=lags)
                    res = mod.bootstrap(Xs, S, **({} if st is None else {"start_from_t": st}))
                    A, te = np.asarray(res.adjacency_matrices_), np.asarray(res.total_effects_)
                    h.check(A.shape == (S, T, lags + 1, n, n) and te.shape == (S, T * n, T * n), "one sample each", got=(A.shape, te.shape))
                    log = mod.__dict__.get("_rt_log", [])
                    h.check(len(log) in (0, S), "one refit per sample")
                    for i in range(S):
                        exp = np.zeros((T * n, T * n))
                        for ft in range(lags, T):
                            for tt in range(ft, T):
                                E = te_oracle(A[i], ft, tt, lags)
                                blk = E[n * (tt - ft):, :n]
                                exp[tt * n:(tt + 1) * n, ft * n:(ft + 1) * n] = blk
                        h.check(np.allclose(te[i], exp, atol=1e-8), "total effects of the sample at their time points", sample=i, got=te[i], expected=exp)
                        if log:
                            h.check(np.array_equal(A[i], log[i]["adjacency_matrices_"], equal_nan=True), "matrices of refit i", sample=i)
                            X = np.asarray(log[i]["X"])
                            h.check(X.shape == (T, 40, n), "resample has the size of the data")
                            rows = {np.column_stack(Xs)[k].tobytes() for k in range(40)}
                            h.check(all(np.ascontiguousarray(np.column_stack(list(X))[k]).tobytes() in rows for k in range(40)),
                                    "the same individuals are drawn at every time point", sample=i)
    for nm, f in {"one time point": lambda X: X[:1], "different sizes": lambda X: [X[0], X[1][:-1]], "different columns": lambda X: [X[0], X[1][:, :1]],
                  "not a list": lambda X: "x"}.items():
        @h.do("refused data", kind=nm)
        def _():
            Xs = data(h.rng("bad"), 2, 30, 2, 1)
            h.raises(ValueError, lambda: lingam.LongitudinalLiNGAM().fit(f(Xs)), nm + " refused by fit")
            h.raises(ValueError, lambda: lingam.LongitudinalLiNGAM().bootstrap(f(Xs), 1), nm + " refused by bootstrap")
    @h.do("refused prior knowledge")
    def _():
        Xs = data(h.rng("bad2"), 2, 30, 2, 1)
        h.raises(ValueError, lambda: lingam.LongitudinalLiNGAM(prior_knowledge=-np.ones((2, 2))), "must be 4D")
        h.raises(ValueError, lambda: lingam.LongitudinalLiNGAM(prior_knowledge=-np.ones((3, 2, 2, 2))).fit(Xs), "wrong number of time points")
        h.raises(ValueError, lambda: lingam.LongitudinalLiNGAM(prior_knowledge=-np.ones((2, 1, 2, 2))).fit(Xs), "wrong number of lags")


if __name__ == "__main__":
    main("C10", run)
