"""C16: error-independence p-values for every pair, symmetrically."""
import itertools

import numpy as np
import pandas as pd
from scipy.stats import gamma

import lingam
from rt.base import *
from rt.c06 import confounded
from rt.c09 import var_data


def ref_p(x, y):
    """gamma approximation of the HSIC test (Gretton et al.), written from the formulas"""
    def gram(v):
        D = (v[:, None] - v[None, :]) ** 2
        d = D[:100, :100]
        d = d[np.triu_indices(len(d), 1)]
        # distances are computed as differences of squares: tiny ones may vanish or turn up as rounding noise
        w2 = .5 * np.median(d[d > 0])
        return np.exp(-D / (2 * w2))
    x, y = np.asarray(x, float), np.asarray(y, float)
    n = len(x)
    K, L = gram(x), gram(y)
    H = np.eye(n) - 1.0 / n
    Kc, Lc = H @ K @ H, H @ L @ H
    stat = np.sum(Kc * Lc) / n
    v = (Kc * Lc / 6) ** 2
    v = (v.sum() - np.trace(v)) / n / (n - 1)
    v = 72 * (n - 4) * (n - 5) / (n * (n - 1) * (n - 2) * (n - 3)) * v
    off = ~np.eye(n, dtype=bool)
    mx, my = K[off].mean(), L[off].mean()
    mean = (1 + mx * my - mx - my) / n
    return gamma.sf(stat, mean ** 2 / v, scale=v * n / mean)


def pclose(a, b):
    return np.isclose(a, b, rtol=1e-2, atol=1e-6)


def check(h, P, E, nan=(), what=""):
    """nan: variables whose pairs must be NaN"""
    n = E.shape[1]
    P = np.asarray(P)
    h.check(P.shape == (n, n), what + "matrix is n x n", got=P.shape)
    h.check(np.all(np.diag(P) == 0), what + "zero diagonal", P=P)
    h.check(np.array_equal(P, P.T, equal_nan=True), what + "symmetric", P=P)
    for i, j in itertools.combinations(range(n), 2):
        if i in nan or j in nan:
            h.check(np.isnan(P[i, j]), what + "NaN for a pair with an unknown coefficient", pair=(i, j), P=P)
        else:
            exp = ref_p(E[:, i], E[:, j])
            h.check(pclose(P[i, j], exp), what + "p-value of the residuals of the pair", pair=(i, j), got=P[i, j], expected=exp)


def resid(X, B):
    X = np.asarray(X, float)
    return X - X @ np.nan_to_num(np.asarray(B, float), nan=0.).T


def nanvars(B):
    a, b = np.nonzero(np.isnan(np.asarray(B, float)))
    return set(a.tolist()) | set(b.tolist())


def run(h):
    for mk in ("direct", "ica", "highdim", "pk"):
        for n in (2, 3, 4, 5):
            for r in range(h.pick(4, 20)):
                if mk == "highdim" and n > 3:
                    continue

                @h.do("single", model=mk, n=n, rep=r)
                def _():
                    rng = h.rng("s", mk, n, r)
                    X = make_data(rng, n, [60, 130, 30][r % 3], ["exp", "uniform", "t"][r % 3])
                    pk = -np.ones((n, n), int)
                    pk[0, 1] = 0
                    mod = {"direct": lambda: lingam.DirectLiNGAM(), "ica": lambda: lingam.ICALiNGAM(random_state=0), "pk": lambda: lingam.DirectLiNGAM(prior_knowledge=pk),
                           "highdim": lambda: lingam.HighDimDirectLiNGAM(random_state=0)}[mk]().fit(X)
                    B = mod.adjacency_matrix_
                    Y = make_data(rng, n, 50, "exp")
                    for Z in (X, Y):
                        check(h, mod.get_error_independence_p_values(pd.DataFrame(Z) if r % 2 else Z), resid(Z, B))
    for n in (2, 3, 4, 5):
        for r in range(h.pick(6, 40)):
            @h.do("hidden common causes", n=n, rep=r)
            def _():
                rng = h.rng("r", n, r)
                X = confounded(rng, n, 60)
                with oracle_tests(h.seed * 31 + n * 100 + r):
                    a = lingam.RCD(cor_alpha=.5 if r % 2 else .01).fit(X)
                with oracle_tests(h.seed * 37 + n * 100 + r, levels=(0.0, 1e-3, .3, .9)):
                    b = lingam.BottomUpParceLiNGAM(alpha=[.1, .02, .5][r % 3]).fit(X)
                for m in (a, b):
                    B = m.adjacency_matrix_
                    check(h, m.get_error_independence_p_values(X), resid(X, B), nanvars(B), type(m).__name__ + ": ")
    for n in (2, 3, 4):
        for r in range(h.pick(4, 20)):
            @h.do("multi-group", n=n, rep=r)
            def _():
                rng = h.rng("g", n, r)
                Xs = [confounded(rng, n, 40 + 15 * g) for g in range(2 + r % 2)]
                m = lingam.MultiGroupDirectLiNGAM().fit(Xs)
                with oracle_tests(h.seed * 41 + n * 100 + r):
                    m2 = lingam.MultiGroupRCD(cor_alpha=.5 if r % 2 else .01).fit(Xs)
                for q in (m, m2):
                    P = q.get_error_independence_p_values(Xs)
                    h.check(len(P) == len(Xs), "one matrix per group", got=len(P))
                    for g in range(len(Xs)):
                        B = q.adjacency_matrices_[g]
                        check(h, P[g], resid(Xs[g], B), nanvars(B), f"{type(q).__name__} group {g}: ")
    for n in (2, 3):
        for r in range(h.pick(4, 20)):
            @h.do("time series", n=n, rep=r)
            def _():
                rng = h.rng("t", n, r)
                X, _, _ = var_data(rng, n, 1 + r % 2, 80)
                for prune in (False, True):
                    m = lingam.VARLiNGAM(lags=1 + r % 2, prune=prune).fit(X)
                    check(h, m.get_error_independence_p_values(), resid(m.residuals_, m.adjacency_matrices_[0]), what="VAR: ")
                    ar, ma = rng.uniform(-.3, .3, (1, n, n)), rng.uniform(-.3, .3, (1, n, n))
                    m = lingam.VARMALiNGAM(order=(1, 1), criterion=None, ar_coefs=ar, ma_coefs=ma, prune=prune).fit(X)
                    check(h, m.get_error_independence_p_values(), resid(m.residuals_, m.adjacency_matrices_[0][0]), what="VARMA: ")
    for n in (2, 3):
        for lags in (1, 2):
            for pk in (False, True):
                for r in range(h.pick(2, 10)):
                    @h.do("longitudinal", n=n, lags=lags, pk=pk, rep=r)
                    def _():
                        rng = h.rng("l", n, lags, r)
                        Xs = [make_data(rng, n, 50, "exp")]
                        for _ in range(lags + 2):
                            Xs.append(.5 * Xs[-1] + make_data(rng, n, 50, "exp"))
                        k = None
                        if pk:
                            k = -np.ones((len(Xs), lags + 1, n, n), int)
                            k[:, 0, 0, 1] = 0
                        m = lingam.LongitudinalLiNGAM(n_lags=lags, prior_knowledge=k).fit(Xs) if pk else lingam.LongitudinalLiNGAM(n_lags=lags).fit(Xs)
                        P = m.get_error_independence_p_values()
                        h.check(len(P) == len(Xs), "one matrix per time point")
                        h.check(np.isnan(np.asarray(P[0])).all(), "no p-values at the first time point")
                        R = m.residuals_
                        for t in range(lags, len(Xs)):
                            check(h, P[t], resid(R[t], m.adjacency_matrices_[t, 0]), what=f"time {t}: ")


if __name__ == "__main__":
    main("C16", run)
