"""C05: bootstrap records the refit of each resample."""
import numpy as np
import pandas as pd

import lingam
from rt.base import *


def tag(X):
    """make every row identifiable"""
    X = np.array(X, float)
    return X


def row_index(X, R):
    """indices of the rows of R in X (rows of X are distinct)"""
    look = {x.tobytes(): i for i, x in enumerate(np.ascontiguousarray(X))}
    out = []
    for r in np.ascontiguousarray(R, dtype=float):
        k = look.get(r.tobytes())
        if k is None:
            return None
        out.append(k)
    return np.array(out)


def check_resample(h, X, R, what):
    h.check(R.shape == X.shape, f"{what}: resample has the shape of the data", got=R.shape, expected=X.shape)
    idx = row_index(X, R)
    h.check(idx is not None, f"{what}: every resampled row is a row of the data")
    return idx


def check_draws(h, idxs, m):
    if len(idxs) > 1:
        h.check(any(not np.array_equal(idxs[0], i) for i in idxs[1:]), "resamples differ")
    h.check(any(len(set(i.tolist())) < len(i) for i in idxs), "rows are drawn with replacement")
    for i in idxs:
        # with m draws from m rows the chance of fewer than m/4 distinct rows is negligible for m >= 30
        h.check(len(set(i.tolist())) > m // 4, "the whole data set is resampled", distinct=len(set(i.tolist())))


def check_te(h, te, order_pairs, B, what, nan_src=()):
    n = len(B)
    T = total_effects(B)
    for to in range(n):
        for fr in range(n):
            if (fr, to) not in order_pairs:
                h.check(te[to, fr] == 0, f"{what}: zero against the causal direction", pair=(fr, to), got=te[to, fr])
            elif fr in nan_src:
                v = nan_src[fr]
                h.check(np.isnan(te[to, fr]) if np.isnan(v) else te[to, fr] == v, f"{what}: confounded source", pair=(fr, to), got=te[to, fr])
            elif T is not None:
                h.check(np.isclose(te[to, fr], T[to, fr], atol=1e-9), f"{what}: total effect implied by the matrix",
                        pair=(fr, to), got=te[to, fr], expected=T[to, fr])


def pairs_of(order):
    out, before = set(), []
    for o in order:
        blk = [int(v) for v in o] if hasattr(o, "__iter__") else [int(o)]
        out |= {(a, b) for a in before for b in blk}
        before += blk
    return out


def run(h):
    from sklearn.linear_model import LinearRegression
    R = h.pick(2, 6)
    MK = {
        "DirectLiNGAM": (lingam.DirectLiNGAM, {}),
        "ICALiNGAM": (lingam.ICALiNGAM, dict(random_state=0, max_iter=300)),
        "HighDimDirectLiNGAM": (lingam.HighDimDirectLiNGAM, {}),
        "RESIT": (lingam.RESIT, dict(regressor=LinearRegression(), alpha=0.05)),
    }
    for nm, (cls, kw) in MK.items():
        for n in (2, 3, 5):
            for m, S in ((40, 3), (31, 1), (60, 5)):
                for r in range(R):
                    @h.do(nm, n=n, m=m, S=S, rep=r)
                    def _():
                        rng = h.rng(nm, n, m, S, r)
                        X = make_data(rng, n, m, "exp", p=[.6, .9][r % 2])
                        if nm == "DirectLiNGAM" and r % 2:
                            pk = -np.ones((n, n), int)
                            pk[0, 1] = 0
                            kws = dict(kw, prior_knowledge=pk)
                        else:
                            kws = dict(kw)
                        mod = recording(cls)(**kws)
                        np.random.seed(100 + r)
                        res = mod.bootstrap(pd.DataFrame(X) if r % 2 else X, S)
                        log = mod.__dict__.get("_rt_log", [])
                        A, te = np.asarray(res.adjacency_matrices_), np.asarray(res.total_effects_)
                        h.check(A.shape == (S, n, n) and te.shape == (S, n, n), "one matrix per sample")
                        ri = res.resampled_indices_
                        h.check(ri is not None and len(ri) == S, "row indices of every sample")
                        h.check(len(log) in (0, S), "one refit per sample", refits=len(log))
                        if S * m >= 90:
                            check_draws(h, [np.asarray(i) for i in ri], m)
                        for i in range(S):
                            h.check(len(ri[i]) == m, "resample size", got=len(ri[i]))
                            Xi = X[np.asarray(ri[i])]
                            if log:
                                h.check(np.array_equal(log[i]["X"], Xi), "reported rows are the rows used", sample=i)
                                h.check(np.array_equal(A[i], log[i]["adjacency_matrix_"]), "matrix of refit i", sample=i)
                            fresh = cls(**kws).fit(Xi)
                            h.check(np.allclose(fresh.adjacency_matrix_, A[i]), "sample i is the fit of its resample",
                                    sample=i, got=A[i], expected=fresh.adjacency_matrix_)
                            check_te(h, te[i], pairs_of(fresh.causal_order_), A[i], f"sample {i}")

    # RCD and BottomUpParce, independence tests varied
    for nm, cls in (("RCD", lingam.RCD), ("BottomUpParceLiNGAM", lingam.BottomUpParceLiNGAM)):
        for n in (2, 3, 4):
            for r in range(h.pick(6, 20)):
                @h.do(nm, n=n, rep=r)
                def _():
                    rng = h.rng(nm, n, r)
                    m, S = 40, [4, 2, 1][r % 3]
                    X = make_data(rng, n, m, "exp")
                    mod = recording(cls)(**({"MLHSICR": False} if nm == "RCD" else {}))
                    with oracle_tests(r):
                        try:
                            res = mod.bootstrap(X, S)
                        except ValueError as e:
                            if "cycl" in str(e).lower():
                                return     # a longer cycle among RCD's edges has no total effect
                            raise
                        log = mod.__dict__.get("_rt_log", [])
                        A, te = np.asarray(res.adjacency_matrices_), np.asarray(res.total_effects_)
                        h.check(A.shape == (S, n, n) and te.shape == (S, n, n), "one matrix per sample")
                        h.check(len(log) in (0, S), "one refit per sample")
                        idx = []
                        for i, L in enumerate(log):
                            idx.append(check_resample(h, X, L["X"], f"sample {i}"))
                            h.check(np.array_equal(A[i], L["adjacency_matrix_"], equal_nan=True), "matrix of refit i", sample=i)
                            fresh = cls(**({"MLHSICR": False} if nm == "RCD" else {})).fit(L["X"])
                            h.check(np.allclose(fresh.adjacency_matrix_, A[i], equal_nan=True), "sample i is the fit of its resample")
                            if nm == "RCD":
                                prs = {(int(a), d) for d, s in enumerate(fresh.ancestors_list_) for a in s}
                            else:
                                prs = pairs_of(fresh.causal_order_)
                            ns = {f: np.nan for f in range(n) if np.isnan(A[i][f]).any()}
                            check_te(h, te[i], prs, A[i], f"sample {i}", ns)
                        if idx and S > 2:
                            check_draws(h, idx, m)

    for nm, cls in (("MultiGroupDirectLiNGAM", lingam.MultiGroupDirectLiNGAM), ("MultiGroupRCD", lingam.MultiGroupRCD)):
        for n in (2, 3, 4):
            for g in (2, 3):
                for r in range(h.pick(3, 12)):
                    @h.do(nm, n=n, groups=g, rep=r)
                    def _():
                        rng = h.rng(nm, n, g, r)
                        S = [4, 2][r % 2]
                        ms = [30 + 7 * k for k in range(g)]
                        if r % 3 == 2:
                            ms = ms[::-1]
                        Xs = [make_data(rng, n, m, "exp") for m in ms]
                        kw = {"MLHSICR": False} if nm == "MultiGroupRCD" else {}
                        mod = recording(cls)(**kw)
                        with oracle_tests(r):
                            try:
                                res = mod.bootstrap([x.copy() for x in Xs], S)
                            except ValueError as e:
                                if nm == "MultiGroupRCD" and "cycl" in str(e).lower():
                                    return
                                raise
                            log = mod.__dict__.get("_rt_log", [])
                            h.check(len(res) == g, "one result per group")
                            h.check(len(log) in (0, S), "one refit per sample", refits=len(log))
                            for k in range(g):
                                A, te = np.asarray(res[k].adjacency_matrices_), np.asarray(res[k].total_effects_)
                                h.check(A.shape == (S, n, n) and te.shape == (S, n, n), "one matrix per sample")
                                idx = []
                                for i, L in enumerate(log):
                                    h.check(len(L["X"]) == g, "every group is resampled")
                                    idx.append(check_resample(h, Xs[k], L["X"][k], f"group {k} sample {i}"))
                                    h.check(np.array_equal(A[i], L["adjacency_matrices_"][k], equal_nan=True), "matrix of refit i of group k", sample=i, group=k)
                                    fresh = cls(**kw).fit([x.copy() for x in L["X"]])
                                    h.check(np.allclose(fresh.adjacency_matrices_[k], A[i], equal_nan=True), "sample i is the fit of its resample")
                                    if nm == "MultiGroupRCD":
                                        prs = {(int(a), d) for d, s in enumerate(fresh.ancestors_list_) for a in s}
                                        ns = {f: 0.0 for f in range(n) if np.isnan(A[i][f]).any()}
                                    else:
                                        prs, ns = pairs_of(fresh.causal_order_), {}
                                    check_te(h, te[i], prs, A[i], f"group {k} sample {i}", ns)
                                if idx and S > 2:
                                    check_draws(h, idx, ms[k])

    X = make_data(h.rng("bad"), 2, 30)
    for nm, mk in (("Direct", lambda: lingam.DirectLiNGAM()), ("ICA", lambda: lingam.ICALiNGAM()),
                   ("HighDim", lambda: lingam.HighDimDirectLiNGAM()), ("RCD", lambda: lingam.RCD()),
                   ("BottomUp", lambda: lingam.BottomUpParceLiNGAM()),
                   ("RESIT", lambda: lingam.RESIT(LinearRegression())),
                   ("MultiGroupDirect", lambda: lingam.MultiGroupDirectLiNGAM()),
                   ("MultiGroupRCD", lambda: lingam.MultiGroupRCD())):
        for bad in (0, -1, -5, 1.5, 2.0, "2", None, [2], np.float64(2.0), np.int64(0)):
            @h.do("refused numbers of samples", model=nm, bad=repr(bad))
            def _():
                D = [X, X.copy()] if nm.startswith("Multi") else X
                h.raises(ValueError, lambda: mk().bootstrap(D, bad), f"n_sampling={bad!r} refused")
        @h.do("numpy integer accepted", model=nm)
        def _():
            D = [X, X[::-1].copy()] if nm.startswith("Multi") else X
            res = mk().bootstrap(D, np.int64(1))
            res = res[0] if isinstance(res, list) else res
            h.check(len(res.adjacency_matrices_) == 1, "one sample")


if __name__ == "__main__":
    main("C05", run)
