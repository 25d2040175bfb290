"""C14: no call changes an argument."""
import copy

import numpy as np
import pandas as pd
from sklearn.linear_model import LinearRegression
from sklearn.tree import DecisionTreeRegressor

import lingam
import lingam.utils as ut
from lingam import hsic
from lingam.tools import bootstrap_with_imputation
from rt.base import *


def snap(v):
    if isinstance(v, np.ndarray):
        return ("a", v.dtype.str, v.shape, np.ascontiguousarray(v).tobytes() if v.dtype != object else repr(v))
    if isinstance(v, (pd.DataFrame, pd.Series)):
        return ("d", type(v).__name__, repr(list(v.index)), repr(list(getattr(v, "columns", []))), repr(getattr(v, "dtypes", "")), np.ascontiguousarray(v.to_numpy(dtype=float)).tobytes())
    if isinstance(v, dict):
        return ("m", [(k, snap(x)) for k, x in v.items()])
    if isinstance(v, (list, tuple)):
        return ("l", type(v).__name__, [snap(x) for x in v])
    if isinstance(v, (int, float, str, bool, type(None), np.generic)):
        return ("s", repr(v))
    return ("o", id(v))


class Guard:
    """checks that the watched values are unchanged after every call"""

    def __init__(self, h, **kw):
        self.h, self.kw = h, kw
        self.before = {k: snap(v) for k, v in kw.items()}

    def __call__(self, what, fn, errors=()):
        try:
            out = fn()
        except errors:
            out = None
        for k, v in self.kw.items():
            self.h.check(snap(v) == self.before[k], f"{what} leaves {k} unchanged", before=str(self.before[k])[:300], after=str(snap(v))[:300])
        return out


FORMS = ("C", "F", "frame", "view", "int", "centred")


def form(X, f):
    X = np.array(X, float)
    if f == "F":
        return np.asfortranarray(X)
    if f == "frame":
        return pd.DataFrame(X, columns=[f"c{i}" for i in range(X.shape[1])])
    if f == "view":
        big = np.zeros((X.shape[0] * 2, X.shape[1] + 1))
        big[::2, 1:] = X
        return big[::2, 1:]
    if f == "int":
        return np.round(X * 100).astype(int)
    if f == "centred":
        return (X - X.mean(0)) / X.std(0)
    return X


def use(g, mod, X, n, effects=True, pvals=True, boot=1):
    g("fit", lambda: mod.fit(X))
    if effects:
        for i, j in ((0, n - 1), (n - 1, 0)):
            g("estimate_total_effect", lambda: mod.estimate_total_effect(X, i, j))
            if hasattr(mod, "estimate_total_effect2"):
                g("estimate_total_effect2", lambda: mod.estimate_total_effect2(i, j), (ValueError,))
    if pvals:
        g("get_error_independence_p_values", lambda: mod.get_error_independence_p_values(X))
    res = g("bootstrap", lambda: mod.bootstrap(X, boot)) if boot else None
    return res


def queries(h, res, n, directions=True):
    g = Guard(h, am=res.adjacency_matrices_, te=res.total_effects_)
    for k in (None, .05):
        kw = {} if k is None else {"min_causal_effect": k}
        cdc = g("get_causal_direction_counts", lambda: res.get_causal_direction_counts(**kw, split_by_causal_effect_sign=True))
        dagc = g("get_directed_acyclic_graph_counts", lambda: res.get_directed_acyclic_graph_counts(**kw, split_by_causal_effect_sign=True))
        g("get_probabilities", lambda: res.get_probabilities(**kw))
        g("get_total_causal_effects", lambda: res.get_total_causal_effects(**kw))
        g("get_paths", lambda: res.get_paths(0, n - 1, **kw), (ValueError,))
    g2 = Guard(h, cdc=cdc, dagc=dagc)
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        g2("print_causal_directions", lambda: ut.print_causal_directions(cdc, len(res.adjacency_matrices_)))
        g2("print_dagc", lambda: ut.print_dagc(dagc, len(res.adjacency_matrices_)))


def run(h):
    for f in FORMS:
        for n in (2, 3, 4):
            for r in range(h.pick(1, 4)):
                @h.do("single-dataset models", form=f, n=n, rep=r)
                def _():
                    rng = h.rng("s", f, n, r)
                    X = form(make_data(rng, n, 40, "exp"), f)
                    g = Guard(h, X=X)
                    pk = -np.ones((n, n), int)
                    pk[0, n - 1] = 0
                    pk[n - 1, 0] = 1
                    pkf = pk.astype(float)
                    gp = Guard(h, X=X, pk=pk, pkf=pkf)
                    for p in (None, pk, pkf):
                        for soft in (False, True):
                            for meas in ("pwling", "kernel"):
                                if meas == "kernel" and (p is pkf or n > 3):
                                    continue
                                m = gp("DirectLiNGAM()", lambda: lingam.DirectLiNGAM(prior_knowledge=p, apply_prior_knowledge_softly=soft, measure=meas))
                                res = use(gp, m, X, n)
                    queries(h, res, n)
                    use(g, lingam.ICALiNGAM(random_state=0), X, n)
                    use(g, lingam.HighDimDirectLiNGAM(random_state=0), X, n, boot=0)
                    reg = DecisionTreeRegressor(max_depth=2, random_state=0)
                    g("RESIT.fit", lambda: lingam.RESIT(regressor=reg).fit(X))
                    h.check(not hasattr(reg, "tree_") or True, "")
                    for mk in ("hsic", "fcorr"):
                        res = use(g, lingam.RCD(independence=mk), X, n)
                        queries(h, res, n)
                        for p in (None, pk, pkf):
                            m = gp("BottomUpParceLiNGAM()", lambda: lingam.BottomUpParceLiNGAM(prior_knowledge=p, independence=mk))
                            use(gp, m, X, n)
                        if n < 4:
                            lst = [(0, 1)]
                            gc = Guard(h, X=X, pk=lst)
                            gc("CAMUV.fit", lambda: lingam.CAMUV(prior_knowledge=lst, independence=mk).fit(X))
                    cols = list(X.columns) if f == "frame" else None
                    Xa = X.to_numpy() if f == "frame" else X
                    gu = Guard(h, X=Xa, frame=X)
                    gu("predict_adaptive_lasso", lambda: ut.predict_adaptive_lasso(np.asarray(Xa, float) if f == "int" else Xa, [0], 1))
                    rem = [0]
                    gr = Guard(h, X=X, rem=rem)
                    gr("remove_effect", lambda: ut.remove_effect(X, rem))
                    gr("remove_effect", lambda: ut.remove_effect(X, rem, return_coefs=True))
                    gu("extract_ancestors", lambda: ut.extract_ancestors(Xa))
                    a, b = np.asarray(Xa)[:, 0], np.asarray(Xa)[:, 1]
                    gu("f_correlation", lambda: ut.f_correlation(a, b))
                    for bw in ("mdbs", "scott", "silverman"):
                        gu("hsic_test_gamma", lambda: hsic.hsic_test_gamma(a, b, bw_method=bw))
                        gu("hsic_test_gamma", lambda: hsic.hsic_test_gamma(Xa[:, :1], Xa[:, 1:], bw_method=bw), (Exception,))
                    _ = cols
    for f in ("C", "frame", "F", "int"):
        for n in (2, 3):
            for r in range(h.pick(1, 4)):
                @h.do("multi-dataset models", form=f, n=n, rep=r)
                def _():
                    rng = h.rng("m", f, n, r)
                    B, p = random_dag(rng, n, .9)
                    Xs = [form(sem_data(rng, B, p, 40 + 5 * k, "exp"), f) for k in range(3)]
                    pk = -np.ones((n, n), int)
                    pk[0, n - 1] = 0
                    g = Guard(h, Xs=Xs, pk=pk)
                    for q in (None, pk):
                        for soft in (False, True):
                            res = use(g, lingam.MultiGroupDirectLiNGAM(prior_knowledge=q, apply_prior_knowledge_softly=soft), Xs, n)
                    queries(h, res[0], n)
                    for mk in ("hsic", "fcorr"):
                        use(g, lingam.MultiGroupRCD(independence=mk), Xs, n)
                        lst = [(0, 1)]
                        Guard(h, Xs=Xs, pk=lst)("MultiGroupCAMUV.fit", lambda: lingam.MultiGroupCAMUV(prior_knowledge=lst, independence=mk).fit(Xs))
                    Ys = [form(sem_data(rng, B, p, 40, "exp"), f) for k in range(4)]
                    g = Guard(h, Ys=Ys)
                    for lags in (1, 2):
                        m = lingam.LongitudinalLiNGAM(n_lags=lags)
                        g("Longitudinal.fit", lambda: m.fit(Ys))
                        g("Longitudinal.estimate_total_effect", lambda: m.estimate_total_effect(Ys, 2, 0, 3, 1))
                        g("Longitudinal.estimate_total_effect2", lambda: m.estimate_total_effect2(2, 0, 3, 1))
                        g("Longitudinal.get_error_independence_p_values", lambda: m.get_error_independence_p_values())
                        g("Longitudinal.bootstrap", lambda: m.bootstrap(Ys, 1, start_from_t=lags))
                        lpk = -np.ones((4, lags + 1, n, n), int)
                        lpk[:, 0, 0, 1] = 0
                        gl = Guard(h, Ys=Ys, pk=lpk)
                        m = gl("Longitudinal()", lambda: lingam.LongitudinalLiNGAM(n_lags=lags, prior_knowledge=lpk))
                        gl("Longitudinal.fit with prior knowledge", lambda: m.fit(Ys))
                        gl("Longitudinal.bootstrap with prior knowledge", lambda: m.bootstrap(Ys, 1, start_from_t=lags))
    for f in ("C", "F", "frame", "int"):
        for r in range(h.pick(1, 4)):
            @h.do("time series models", form=f, rep=r)
            def _():
                rng = h.rng("t", f, r)
                n = 3
                E = rng.exponential(size=(60, n))
                X = np.zeros((60, n))
                for t in range(1, 60):
                    X[t] = .3 * X[t - 1] + E[t]
                    X[t, 1] += .5 * X[t, 0]
                X = form(X, f)
                M = np.array([.2 * np.eye(n), .1 * np.eye(n)])
                g = Guard(h, X=X, M=M)
                for kw in ({}, {"lags": 2, "criterion": None}, {"ar_coefs": M, "lags": 2}, {"prune": False}, {"ar_coefs": M, "lags": 2, "prune": False}):
                    m = lingam.VARLiNGAM(**kw)
                    g("VAR.fit", lambda: m.fit(X))
                    g("VAR.estimate_total_effect", lambda: m.estimate_total_effect(X, 0, 1, from_lag=1))
                    g("VAR.estimate_total_effect2", lambda: m.estimate_total_effect2(n, 0, 1))
                    g("VAR.get_error_independence_p_values", lambda: m.get_error_independence_p_values())
                    res = g("VAR.bootstrap", lambda: m.bootstrap(X, 2))
                    g2 = Guard(h, am=res.adjacency_matrices_, te=res.total_effects_)
                    g2("VAR get_paths", lambda: res.get_paths(0, 1, from_lag=1))
                    g2("VAR get_probabilities", lambda: res.get_probabilities())
                    g2("VAR get_causal_direction_counts", lambda: res.get_causal_direction_counts())
                    g2("VAR get_total_causal_effects", lambda: res.get_total_causal_effects())
                ar, ma = .2 * np.eye(n)[None], .1 * np.eye(n)[None]
                g = Guard(h, X=X, ar=ar, ma=ma)
                for prune in (False, True):
                    m = lingam.VARMALiNGAM(order=(1, 1), criterion=None, ar_coefs=ar, ma_coefs=ma, prune=prune)
                    g("VARMA.fit", lambda: m.fit(X))
                    E = rng.normal(size=(len(X), n))
                    g("VARMA.fit", lambda: m.residuals_)
                    Guard(h, X=X, E=E)("VARMA.estimate_total_effect", lambda: m.estimate_total_effect(X, E, 0, 1))
                    g("VARMA.get_error_independence_p_values", lambda: m.get_error_independence_p_values())
                    res = g("VARMA.bootstrap", lambda: m.bootstrap(X, 1))
                    g2 = Guard(h, am=res.adjacency_matrices_, te=res.total_effects_)
                    g2("VARMA get_paths", lambda: res.get_paths(0, 1))
    for n in (2, 3, 4, 5):
        for r in range(h.pick(15, 40)):
            @h.do("graph utilities", n=n, rep=r)
            def _():
                rng = h.rng("u", n, r)
                B, p = random_dag(rng, n, .8)
                if r % 3 == 1:
                    B[0, 1] = B[1, 0] = np.nan
                if r % 3 == 2:
                    B = np.round(B * 3).astype(int)
                if r % 2:
                    B = np.asfortranarray(B)
                if r % 4 >= 2:
                    np.fill_diagonal(B, rng.randint(0, 3, n))
                if r % 5 == 4:
                    B = np.abs(B)
                lab = [f"x{i}" for i in range(n)]
                g = Guard(h, B=B, lab=lab)
                g("get_sink_variables", lambda: ut.get_sink_variables(B))
                g("get_exo_variables", lambda: ut.get_exo_variables(B))
                g("make_dot", lambda: ut.make_dot(B, labels=lab))
                g("make_dot", lambda: ut.make_dot(B, labels=lab, path=(p[0], p[-1]), detect_cycle=True, lower_limit=.3), (Exception,))
                g("make_dot", lambda: ut.make_dot(B, prediction_feature_indices=[0, 1], prediction_coefs=[.5, .4]))
                g("make_dot_highlight", lambda: ut.make_dot_highlight(B, 0, labels=lab), (ValueError,))
                for th in (0.0, .5):
                    g("find_all_paths", lambda: ut.find_all_paths(B, p[0], p[-1], th), (ValueError,))
                g("calculate_total_effect", lambda: ut.calculate_total_effect(B, p[0], p[-1]), (ValueError,))
                ic = [True] * n
                Guard(h, B=B, ic=ic)("calculate_total_effect", lambda: ut.calculate_total_effect(B, p[0], p[-1], is_continuous=ic), (ValueError,))
                g("calculate_distance_from_root_nodes", lambda: ut.calculate_distance_from_root_nodes(B), (ValueError,))
                g("calculate_distance_from_root_nodes", lambda: ut.calculate_distance_from_root_nodes(B, max_distance=1), (ValueError,))
                ex, si, pa, no = [0], [n - 1], [(0, 1)], [[1, 0]]
                Guard(h, ex=ex, si=si, pa=pa, no=no)("make_prior_knowledge", lambda: ut.make_prior_knowledge(n, exogenous_variables=ex, sink_variables=si, paths=pa, no_paths=no))
                if r % 3 == 0:
                    B = B.copy()
                    np.fill_diagonal(B, 0)
                    X = pd.DataFrame(sem_data(rng, B, p, 60, "exp"), columns=lab)
                    Xa = X.to_numpy().copy()
                    g = Guard(h, B=B, X=X, Xa=Xa)
                    for D in (X, Xa):
                        ce = lingam.CausalEffect(B)
                        lr = LinearRegression().fit(Xa[:, 1:], Xa[:, 0])
                        g("estimate_effects_on_prediction", lambda: ce.estimate_effects_on_prediction(D, 0, lr))
                        g("estimate_optimal_intervention", lambda: ce.estimate_optimal_intervention(D, 0, lr, 1, 0.5), (Exception,))
                    if n > 2:
                        g("evaluate_model_fit", lambda: ut.evaluate_model_fit(B, X), (Exception,))
                    ex = {lab[0]: Xa[:, 0].copy()}
                    ch = {lab[p[-1]]: {"parent_names": [lab[p[0]]], "coef": [.5]}}
                    g = Guard(h, B=B, X=X, ex=ex, ch=ch)
                    sim = lingam.CausalBasedSimulator()
                    g("CausalBasedSimulator.train", lambda: sim.train(X, B))
                    g("CausalBasedSimulator.run", lambda: sim.run(changing_exog=ex, changing_models=ch))
                    g("CausalBasedSimulator.run", lambda: sim.run(changing_exog=ex, shuffle_residual=True, random_state=0))
                    Z = Xa.copy()
                    Z[rng.rand(*Z.shape) < .1] = np.nan
                    pk = -np.ones((n, n), int)
                    g = Guard(h, Z=Z, pk=pk)
                    g("bootstrap_with_imputation", lambda: bootstrap_with_imputation(Z, 1, 2, prior_knowledge=pk, random_state=0))


if __name__ == "__main__":
    main("C14", run)
