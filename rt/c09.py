"""C09: VAR / VARMA matrices satisfy the structural equations."""
import itertools

import numpy as np
import pandas as pd

import lingam
from lingam.utils import predict_adaptive_lasso
from rt.base import *


def var_data(rng, n, lags, m, noise="laplace"):
    B0, p = random_dag(rng, n, .7, .4, .9)
    A = np.linalg.inv(np.eye(n) - B0)
    Bs = [rng.uniform(-.45, .45, (n, n)) / (n * (k + 1)) + np.diag(rng.uniform(.1, .3, n)) for k in range(lags)]
    E = {"laplace": rng.laplace(size=(m + 50, n)), "uniform": rng.uniform(-1, 1, (m + 50, n))}[noise]
    X = np.zeros((m + 50, n))
    for t in range(m + 50):
        s = E[t].copy()
        for k in range(lags):
            if t - k - 1 >= 0:
                s += Bs[k] @ X[t - k - 1]
        X[t] = A @ s
    return X[50:], B0, Bs


def check_order(h, order, B0, n):
    h.check(is_perm(order, n), "causal order is a permutation", order=order)
    h.check(B0.shape == (n, n) and np.all(np.diag(B0) == 0) and respects(B0, order), "instantaneous matrix respects the order", B0=B0, order=order)


def check_te(h, mod, mats, n, order):
    """mats: B0, B1.. ; total effects from lag k"""
    T = np.linalg.inv(np.eye(n) - mats[0])
    for k in range(len(mats)):
        exp = (T - np.eye(n)) if k == 0 else T @ mats[k]
        for f, t in itertools.product(range(n), repeat=2):
            if k == 0 and f == t:
                continue
            got = mod.estimate_total_effect2(n, f, t, k)
            h.check(np.isclose(got, exp[t, f], atol=1e-8), "total effect uses the columns of the requested lag", lag=k, pair=(f, t), got=got, expected=exp[t, f])


def coefficient(cols, y, skip):
    """coefficient of the first column; with the lagged data wrapped around, or without the wrapped rows"""
    out = []
    for k in (0, skip):
        A, b = np.column_stack(cols)[k:], y[k:]
        A, b = A - A.mean(0), b - b.mean()
        out.append(np.linalg.lstsq(A, b, rcond=None)[0][0])
    return out


def check_te_data(h, mod, mats, X, n, E=None, omegas=()):
    """effects estimated from data: regression on the source and its parents, all shifted by the lag"""
    X = np.asarray(X, float)
    L = len(mats) - 1
    for k in range(3):
        for f, t in itertools.product(range(n), repeat=2):
            if k == 0 and f == t:
                continue
            # x_f(t-k) and its parents x_j(t-k-l), e_j(t-k-l)
            cols = [np.roll(X[:, f], k)]
            cols += [np.roll(X[:, j], k + l) for l, B in enumerate(mats) for j in range(n) if B[f, j] != 0]
            cols += [np.roll(E[:, j], k + l + 1) for l, B in enumerate(omegas) for j in range(n) if B[f, j] != 0]
            exp = coefficient(cols, X[:, t], k + max(L, len(omegas)))
            got = mod.estimate_total_effect(X, f, t, from_lag=k) if E is None else mod.estimate_total_effect(X, E, f, t, from_lag=k)
            h.check(any(np.isclose(got, e, rtol=1e-5, atol=1e-7) for e in exp), "effect estimated from data regresses on the source and its parents at the lag", lag=k, pair=(f, t), got=got, expected=exp)


def inner(kind):
    return {None: lambda: None, "direct": lambda: lingam.DirectLiNGAM(), "ica": lambda: lingam.ICALiNGAM(random_state=3),
            "pk": lambda: lingam.DirectLiNGAM(prior_knowledge=np.array([[-1, 0], [-1, -1]]))}[kind]()


def check_var(h, mod, X, n, kind, coefs=None, prune=False):
    Bs = [np.asarray(b) for b in mod.adjacency_matrices_]
    L = len(Bs) - 1
    R = np.asarray(mod.residuals_)
    m = len(X)
    check_order(h, mod.causal_order_, Bs[0], n)
    h.check(R.shape == (m - L, n), "residuals after the first lags", got=R.shape, lags=L)
    ref = (inner(kind) or lingam.DirectLiNGAM()).fit(R)
    h.check([int(v) for v in ref.causal_order_] == [int(v) for v in mod.causal_order_], "order of the inner model on the residuals")
    if not prune:
        h.check(np.allclose(ref.adjacency_matrix_, Bs[0]), "instantaneous matrix of the inner model", got=Bs[0], expected=ref.adjacency_matrix_)
        Ms = [np.linalg.solve(np.eye(n) - Bs[0], b) for b in Bs[1:]]
        if coefs is not None:
            h.check(len(Ms) == len(coefs) and np.allclose(Ms, coefs), "lag matrices are (I - B0) M", got=Bs[1:], M=coefs)
    else:
        Ms = coefs
    if Ms is not None:
        pred = sum(X[L - k - 1:m - k - 1] @ np.asarray(Ms[k]).T for k in range(L)) if L else 0
        h.check(np.allclose(R, X[L:] - pred, atol=1e-8), "residuals of the autoregression", )
    return Bs


def run(h):
    R = h.pick(3, 10)
    for n, lags in ((2, 1), (3, 1), (2, 2), (3, 2), (4, 1), (2, 3)):
        for r in range(R):
            for kind in (None, "ica", "pk"):
                if kind == "pk" and n != 2:
                    continue
                @h.do("VAR", n=n, lags=lags, rep=r, inner=kind)
                def _():
                    rng = h.rng("var", n, lags, r)
                    X, B0, Bs = var_data(rng, n, lags, 120)
                    Xf = pd.DataFrame(X) if r % 2 else X
                    mod = lingam.VARLiNGAM(lags=lags, criterion=None, prune=False, lingam_model=inner(kind))
                    h.check(mod.fit(Xf) is mod, "fit returns the model")
                    h.check(len(mod.adjacency_matrices_) == lags + 1, "one matrix per lag", got=len(mod.adjacency_matrices_))
                    mats = check_var(h, mod, X, n, kind)
                    check_te(h, mod, mats, n, mod.causal_order_)
                    # given coefficients (random ones)
                    M = rng.uniform(-.4, .4, (lags, n, n))
                    mod = lingam.VARLiNGAM(lags=lags, criterion=[None, "bic"][r % 2], prune=False, ar_coefs=M.copy(), lingam_model=inner(kind)).fit(Xf)
                    mats = check_var(h, mod, X, n, kind, M)
                    check_te(h, mod, mats, n, mod.causal_order_)
                    # pruned
                    for co in (None, M):
                        mod = lingam.VARLiNGAM(lags=lags, criterion=None, prune=True, ar_coefs=None if co is None else co.copy(), lingam_model=inner(kind)).fit(Xf)
                        mats = check_var(h, mod, X, n, kind, co, prune=True)
                        check_te(h, mod, mats, n, mod.causal_order_)
                        check_te_data(h, mod, mats, X, n)
                        order = [int(v) for v in mod.causal_order_]
                        for i in range(n):
                            anc = order[:order.index(i)]
                            D = np.column_stack([X[lags:, anc]] + [X[lags - k - 1:len(X) - k - 1] for k in range(lags)] + [X[lags:, [i]]])[::-1]
                            c = predict_adaptive_lasso(D, list(range(D.shape[1] - 1)), D.shape[1] - 1)
                            h.check(np.allclose(mats[0][i, anc], c[:len(anc)], atol=1e-4), "pruned instantaneous row regresses on the predecessors and the lags", var=i,
                                    got=mats[0][i, anc], expected=c[:len(anc)])
                            for k in range(lags):
                                e = c[len(anc) + n * k:len(anc) + n * (k + 1)]
                                h.check(np.allclose(mats[k + 1][i], e, atol=1e-4), "pruned lag row", var=i, lag=k + 1, got=mats[k + 1][i], expected=e)
    for crit in ("aic", "fpe", "hqic", "bic"):
        for maxl in (1, 2, 4):
            for prune in (False, True):
                @h.do("VAR lag selection", criterion=crit, maxlags=maxl, prune=prune)
                def _():
                    rng = h.rng("sel", crit, maxl)
                    X, _, _ = var_data(rng, 2, 2, 150)
                    mod = lingam.VARLiNGAM(lags=maxl, criterion=crit, prune=prune).fit(X)
                    h.check(1 <= len(mod.adjacency_matrices_) - 1 <= maxl, "selected lags within the limit")
                    mats = check_var(h, mod, X, 2, None, prune=prune)
                    check_te(h, mod, mats, 2, mod.causal_order_)

    for n, lags, S in ((2, 1, 3), (3, 2, 2), (2, 2, 3), (3, 1, 2)):
        for r in range(h.pick(2, 6)):
            for prune in (False, True):
                @h.do("VAR bootstrap", n=n, lags=lags, S=S, rep=r, prune=prune)
                def _():
                    rng = h.rng("vb", n, lags, r)
                    X, _, _ = var_data(rng, n, lags, 90)
                    mod = recording(lingam.VARLiNGAM)(lags=lags, prune=prune, criterion=["bic", None][r % 2])
                    res = mod.bootstrap(X, S)
                    am, te = res.adjacency_matrices_, np.asarray(res.total_effects_)
                    log = mod.__dict__.get("_rt_log", [])
                    h.check(len(am) == S and te.shape == (S, n, n * (lags + 1)), "one sample each", got=te.shape)
                    if len(log) == S + 1:
                        for i in range(S):
                            h.check(np.array_equal(am[i], np.concatenate(list(log[i + 1]["adjacency_matrices_"]), axis=1)), "matrices concatenated in order", sample=i)
                            h.check(log[i + 1]["X"].shape == X.shape, "resampled series has the length of the data")
                    for i in range(S):
                        mats = [np.asarray(am[i])[:, n * k:n * (k + 1)] for k in range(lags + 1)]
                        T = np.linalg.inv(np.eye(n) - mats[0])
                        exp = np.concatenate([T - np.eye(n)] + [T @ b for b in mats[1:]], axis=1)
                        h.check(np.allclose(te[i], exp, atol=1e-8), "total effects of the sample", got=te[i], expected=exp)

    # VARMA with given coefficients
    for n, p, q in ((2, 1, 1), (2, 2, 1), (2, 1, 2), (3, 1, 1), (3, 2, 2)):
        for r in range(R):
            for kind in (None, "ica"):
                @h.do("VARMA given coefficients", n=n, order=(p, q), rep=r, inner=kind)
                def _():
                    rng = h.rng("vm", n, p, q, r)
                    X, _, _ = var_data(rng, n, 2, 120)
                    phi, th = rng.uniform(-.3, .3, (p, n, n)), rng.uniform(-.3, .3, (q, n, n))
                    for prune in (False, True):
                        mod = lingam.VARMALiNGAM(order=(p, q), criterion=None, prune=prune, ar_coefs=phi.copy(), ma_coefs=th.copy(), lingam_model=inner(kind))
                        h.check(mod.fit(X) is mod, "fit returns the model")
                        psis, oms = [np.asarray(x) for x in mod.adjacency_matrices_]
                        h.check(psis.shape == (p + 1, n, n) and oms.shape == (q, n, n), "one matrix per lag", psi=psis.shape, omega=oms.shape)
                        check_order(h, mod.causal_order_, psis[0], n)
                        E = np.asarray(mod.residuals_)
                        s = max(p, q)
                        h.check(E.shape == (len(X) - s, n), "residuals after the first samples")
                        for t in range(q, len(E)):
                            e = X[t + s] - sum(phi[k] @ X[t + s - k - 1] for k in range(p)) - sum(th[k] @ E[t - k - 1] for k in range(q))
                            h.check(np.allclose(e, E[t], atol=1e-7), "residuals of the ARMA recursion", t=t)
                        ref = (inner(kind) or lingam.DirectLiNGAM()).fit(E)
                        h.check([int(v) for v in ref.causal_order_] == [int(v) for v in mod.causal_order_], "order of the inner model")
                        if not prune:
                            P0 = ref.adjacency_matrix_
                            I = np.eye(n)
                            h.check(np.allclose(psis[0], P0), "instantaneous matrix of the inner model")
                            for k in range(p):
                                h.check(np.allclose(psis[k + 1], (I - P0) @ phi[k]), "lag matrix is (I - psi0) phi", lag=k + 1)
                            for k in range(q):
                                h.check(np.allclose(oms[k], (I - P0) @ th[k] @ np.linalg.inv(I - P0)), "omega is (I - psi0) theta (I - psi0)^-1", lag=k + 1,
                                        got=oms[k], expected=(I - P0) @ th[k] @ np.linalg.inv(I - P0))
                        check_te(h, mod, list(psis), n, mod.causal_order_)
                        check_te_data(h, mod, list(psis), X, n, E=rng.normal(size=X.shape), omegas=list(oms))
    # pruned VARMA keeps strong lag effects in the right block (large sample)
    for r in range(h.pick(2, 6)):
        @h.do("VARMA pruned blocks", rep=r)
        def _():
            rng = h.rng("vmp", r)
            n, m = 2, 600
            phi = np.zeros((2, n, n))
            phi[0][1, 0], phi[1][0, 1], phi[0][0, 0] = .5, -.4, .3
            th = np.zeros((1, n, n))
            th[0][1, 1], th[0][0, 1] = .5, .3
            E = rng.laplace(size=(m, n))
            X = np.zeros((m, n))
            for t in range(2, m):
                X[t] = phi[0] @ X[t - 1] + phi[1] @ X[t - 2] + E[t] + th[0] @ E[t - 1]
            mods = {}
            for prune in (False, True):
                np.random.seed(1)
                mods[prune] = lingam.VARMALiNGAM(order=(2, 1), criterion=None, prune=prune, ar_coefs=phi, ma_coefs=th).fit(X)
            a, b = mods[False].adjacency_matrices_, mods[True].adjacency_matrices_
            for x, y in zip(list(a[0]) + list(a[1]), list(b[0]) + list(b[1])):
                h.check(np.max(np.abs(x - y)) < .25, "pruning keeps the strong effects in their block", full=x, pruned=y)
    # estimated VARMA
    for k, (n, order, crit) in enumerate((((2, (1, 1), None)), (2, (1, 1), "bic"), (2, (1, 0), None), (2, (2, 1), None))[:h.pick(3, 4)]):
        for prune in (False, True):
            @h.do("VARMA estimated", n=n, order=order, criterion=crit, prune=prune)
            def _():
                rng = h.rng("vme", k)
                X, _, _ = var_data(rng, n, 1, 150)
                np.random.seed(2)
                mod = lingam.VARMALiNGAM(order=order, criterion=crit, prune=prune, max_iter=20).fit(X)
                psis, oms = [np.asarray(x) for x in mod.adjacency_matrices_]
                check_order(h, mod.causal_order_, psis[0], n)
                E = np.asarray(mod.residuals_)
                ref = lingam.DirectLiNGAM().fit(E)
                if not prune:
                    I = np.eye(n)
                    h.check(np.allclose(ref.adjacency_matrix_, psis[0]), "instantaneous matrix of the inner model")
                    phi = [np.linalg.solve(I - psis[0], b) for b in psis[1:]]
                    th = [np.linalg.solve(I - psis[0], o) @ (I - psis[0]) for o in oms]
                    D = np.array([X[t] - E[t] - sum((phi[k] @ X[t - k - 1] for k in range(len(phi))), np.zeros(n)) -
                                  sum((th[k] @ E[t - k - 1] for k in range(len(th))), np.zeros(n)) for t in range(100, 150)])
                    h.check(np.allclose(D, D[-1], atol=1e-3), "estimated coefficients and residuals fit together", spread=np.ptp(D, axis=0))
                check_te(h, mod, list(psis), n, mod.causal_order_)

    # VARMA bootstrap with given coefficients
    for n, p, q in ((2, 1, 1), (2, 2, 1), (3, 1, 2)):
        for prune in (False, True):
            @h.do("VARMA bootstrap", n=n, order=(p, q), prune=prune)
            def _():
                rng = h.rng("vmb", n, p, q)
                S = 2
                X, _, _ = var_data(rng, n, 2, 90)
                phi, th = rng.uniform(-.3, .3, (p, n, n)), rng.uniform(-.3, .3, (q, n, n))
                mod = recording(lingam.VARMALiNGAM)(order=(p, q), criterion=None, prune=prune, ar_coefs=phi, ma_coefs=th)
                res = mod.bootstrap(X, S)
                am, te = res.adjacency_matrices_, np.asarray(res.total_effects_)
                log = mod.__dict__.get("_rt_log", [])
                h.check(len(am) == S and te.shape == (S, n, n * (p + 1)), "one sample each", got=te.shape)
                for i in range(S):
                    h.check(np.asarray(am[i]).shape == (n, n * (1 + p + q)), "psi then omega")
                    if len(log) == S + 1:
                        ps, om = log[i + 1]["adjacency_matrices_"]
                        h.check(np.array_equal(am[i], np.concatenate(list(ps) + list(om), axis=1)), "matrices concatenated in order", sample=i)
                    mats = [np.asarray(am[i])[:, n * k:n * (k + 1)] for k in range(p + 1)]
                    T = np.linalg.inv(np.eye(n) - mats[0])
                    exp = np.concatenate([T - np.eye(n)] + [T @ b for b in mats[1:]], axis=1)
                    h.check(np.allclose(te[i], exp, atol=1e-8), "total effects of the sample", got=te[i], expected=exp)
    for cls in (lingam.VARLiNGAM, lingam.VARMALiNGAM):
        @h.do("inner model type", model=cls.__name__)
        def _():
            h.raises(ValueError, lambda: cls(lingam_model=object()).fit(var_data(h.rng("x"), 2, 1, 50)[0]), "inner model must be a LiNGAM model")
            h.raises(ValueError, lambda: cls(lingam_model=lingam.RCD()).fit(var_data(h.rng("x"), 2, 1, 50)[0]), "inner model must be a LiNGAM model")


if __name__ == "__main__":
    main("C09", run)
