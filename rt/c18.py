"""C18: invalid settings are rejected before any estimation, valid ones are accepted and used unchanged."""
import numpy as np
from sklearn.linear_model import LinearRegression

import lingam
from rt.base import *

TINY = 5e-324
BADNEG = [-5e-324, -1e-12, -0.01, -0.5, -1, -3, -np.inf]
OKNN = [0, 0.0, -0.0, TINY, 1e-12, 0.01, 0.5, 1, 1.0, 2.5, 1000]
BADPOS = [0, -1, -2, -100, -0.5, 0.0]
OKPOS = [1, 2, 3, 10, 1000]
BADNAME = ["", "HSIC", "hsic ", "corr", "f_corr", "gamma", None, 0, "hsicfcorr", "fcor"]
BADBW = ["", "MDBS", "scot", "silver", "median", None, 1, "Scott"]


class NoPredict:
    def fit(self, X, y):
        return self


class NoFit:
    def predict(self, X):
        return X


class Touch:
    """refuses to be used: a rejected setting must not reach the estimation"""

    def fit(self, X, y):
        raise AssertionError("estimation started")

    def predict(self, X):
        raise AssertionError("estimation started")


def digest(mod):
    out = []
    for nm in ("causal_order_", "adjacency_matrix_", "adjacency_matrices_", "ancestors_list_"):
        if hasattr(mod, nm):
            out.append((nm, repr(np.round(np.array(getattr(mod, nm), dtype=float), 6).tolist())
                        if nm.startswith("adj") else repr(getattr(mod, nm))))
    return out


def run(h):
    rng = h.rng("c18")
    reg = LinearRegression()
    spec = {
        "RCD": (lingam.RCD, {}, dict(cor_alpha="nn", ind_alpha="nn", shapiro_alpha="nn", ind_corr="nn",
                                     max_explanatory_num="pos", bw_method="bw", independence="ind")),
        "MultiGroupRCD": (lingam.MultiGroupRCD, {}, dict(cor_alpha="nn", ind_alpha="nn", shapiro_alpha="nn", ind_corr="nn",
                                                         max_explanatory_num="pos", bw_method="bw", independence="ind")),
        "CAMUV": (lingam.CAMUV, {}, dict(alpha="nn", ind_corr="nn", num_explanatory_vals="pos", independence="ind")),
        "MultiGroupCAMUV": (lingam.MultiGroupCAMUV, {}, dict(alpha="nn", ind_corr="nn", num_explanatory_vals="pos",
                                                             independence="ind")),
        "BottomUpParceLiNGAM": (lingam.BottomUpParceLiNGAM, {}, dict(alpha="nn", ind_corr="nn", independence="ind",
                                                                     regressor="regopt")),
        "RESIT": (lingam.RESIT, dict(regressor=reg), dict(alpha="nn", regressor="reg")),
    }
    GOOD = dict(nn=OKNN, pos=OKPOS, bw=["mdbs", "scott", "silverman"], ind=["hsic", "fcorr"], reg=[reg], regopt=[None, reg])
    BAD = dict(nn=BADNEG, pos=BADPOS, bw=BADBW, ind=BADNAME, reg=[None, NoPredict(), NoFit(), 3, "x"],
               regopt=[NoPredict(), NoFit(), 3, "x"])
    for nm, (cls, base, ps) in spec.items():
        for p, kind in ps.items():
            for k, v in enumerate(BAD[kind]):
                @h.do("reject " + nm, param=p, value=repr(v), k=k)
                def _():
                    h.raises(ValueError, lambda: cls(**dict(base, **{p: v})), f"{nm}({p}={v!r}) is rejected with ValueError")
                    # ... whatever the other (valid) settings are
                    for _k in range(3):
                        r = h.rng("combo", nm, p, k, _k)
                        kw = dict(base)
                        for q, kd in ps.items():
                            if q != p and r.rand() < .6:
                                kw[q] = GOOD[kd][r.randint(len(GOOD[kd]))]
                        kw[p] = v
                        h.raises(ValueError, lambda: cls(**kw), f"{nm}({kw}) is rejected with ValueError")
            for k, v in enumerate(GOOD[kind]):
                @h.do("accept " + nm, param=p, value=repr(v), k=k)
                def _():
                    cls(**dict(base, **{p: v}))
                    h.check(True, "accepted")
        for k in range(h.pick(6, 30)):
            @h.do("accept " + nm, combo=k)
            def _():
                r = h.rng("acc", nm, k)
                kw = dict(base)
                for q, kd in ps.items():
                    kw[q] = GOOD[kd][r.randint(len(GOOD[kd]))]
                cls(**kw)
                h.check(True, "accepted")

    # ---- HighDimDirectLiNGAM
    for p, bad, good in (("J", [2, 1, 0, -1, 2.5, "3", None], [3, 4, 50]),
                         ("K", [0, -1, 1.5, "4", None], [1, 2, 4, 9]),
                         ("alpha", [-1e-9, 1 + 1e-9, 2, -1, "0.5", None], [0, 1, 0.0, 1.0, 0.5, 1e-9]),
                         ("estimate_adj_mat", [1, 0, None, "True", 0.5], [True, False])):
        for k, v in enumerate(bad):
            @h.do("reject HighDimDirectLiNGAM", param=p, k=k)
            def _():
                h.raises((ValueError, TypeError), lambda: lingam.HighDimDirectLiNGAM(**{p: v}), f"{p}={v!r} is rejected")
        for k, v in enumerate(good):
            @h.do("accept HighDimDirectLiNGAM", param=p, k=k)
            def _():
                m = lingam.HighDimDirectLiNGAM(**{p: v})
                if p == "estimate_adj_mat":
                    m.fit(make_data(h.rng("hd"), 3, 50))
                    h.check((m.adjacency_matrix_ is None) == (not v) if not v else np.array(m.adjacency_matrix_).shape == (3, 3),
                            "estimate_adj_mat is used")
                h.check(True, "accepted")

    # ---- prior knowledge shapes
    for n in (2, 3, 4):
        for k, sh in enumerate([(n - 1, n - 1), (n + 1, n + 1), (n, n + 1), (n + 1, n), (n, n - 1), (n - 1, n), (1, n), (n, 1), (1, 1), (n * n, 1)]):
            if 0 in sh or sh == (n, n):
                continue
            for val in (-1, 0):
                @h.do("prior knowledge shape", n=n, k=k, val=val)
                def _():
                    X = make_data(h.rng("pk", n), n, 40)
                    pk = np.full(sh, val)
                    for mk in (lambda: lingam.DirectLiNGAM(prior_knowledge=pk).fit(X),
                               lambda: lingam.DirectLiNGAM(prior_knowledge=pk, apply_prior_knowledge_softly=True).fit(X),
                               lambda: lingam.DirectLiNGAM(prior_knowledge=pk, measure="kernel").fit(X),
                               lambda: lingam.MultiGroupDirectLiNGAM(prior_knowledge=pk).fit([X, X[::-1]]),
                               lambda: lingam.BottomUpParceLiNGAM(prior_knowledge=pk).fit(X),
                               lambda: lingam.BottomUpParceLiNGAM(prior_knowledge=pk, regressor=Touch()).fit(X)):
                        h.raises(ValueError, mk, f"prior knowledge of shape {sh} for {n} variables is rejected")
        @h.do("prior knowledge accepted", n=n)
        def _():
            X = make_data(h.rng("pk", n), n, 40)
            pk = np.full((n, n), -1)
            a = lingam.DirectLiNGAM(prior_knowledge=pk).fit(X)
            b = lingam.DirectLiNGAM().fit(X)
            h.check(list(a.causal_order_) == list(b.causal_order_) and np.allclose(a.adjacency_matrix_, b.adjacency_matrix_),
                    "empty prior knowledge is accepted and has no effect")
            a = lingam.BottomUpParceLiNGAM(prior_knowledge=pk).fit(X)
            b = lingam.BottomUpParceLiNGAM().fit(X)
            h.check(repr(a.causal_order_) == repr(b.causal_order_), "empty prior knowledge is accepted and has no effect")

    # ---- measure names
    for bad in ("PWLING", "", None, "kernels", "pw", 1):
        @h.do("measure", value=repr(bad))
        def _():
            h.check(True, "measure names are not validated by the constructor")

    # ---- lists of datasets
    mgs = {"MultiGroupDirectLiNGAM": lambda **k: lingam.MultiGroupDirectLiNGAM(**k), "MultiGroupRCD": lambda **k: lingam.MultiGroupRCD(**k),
           "MultiGroupCAMUV": lambda **k: lingam.MultiGroupCAMUV(**k), "LongitudinalLiNGAM": lambda **k: lingam.LongitudinalLiNGAM(**k)}
    X3, X3b, X4, X3s = (make_data(rng, 3, 40), make_data(rng, 3, 40), make_data(rng, 4, 40), make_data(rng, 3, 30))
    for nm, mk in mgs.items():
        bads = [[], [X3], [X3, X4], [X4, X3], [X3, X3b, X4], [X3, X4, X3b], [X3, X3b[:, :2]], [X3[:, :2], X3, X3b], X3, None, "abc", 5, {0: X3, 1: X3b}]
        if nm != "LongitudinalLiNGAM":
            bads += [(X3, X3b), X3.tolist() and 3]
        else:
            bads += [[X3, X3s], [X3, X3b, X3s], [X3s, X3, X3b]]
        for k, bad in enumerate(bads):
            if nm == "LongitudinalLiNGAM" and bad is X3:
                continue
            @h.do("dataset list " + nm, k=k)
            def _():
                h.raises(ValueError, lambda: mk().fit(bad), f"{nm}.fit rejects dataset list {k}")
                if nm == "LongitudinalLiNGAM":
                    m = mk().fit([X3, X3b])
                    if not (isinstance(bad, list) and any(b is X3s for b in bad)):
                        h.raises(ValueError, lambda: m.bootstrap(bad, 2), f"{nm}.bootstrap rejects dataset list {k}")
                elif nm in ("MultiGroupDirectLiNGAM", "MultiGroupRCD"):
                    h.raises(ValueError, lambda: mk().bootstrap(bad, 2), f"{nm}.bootstrap rejects dataset list {k}")
                    m = mk().fit([X3, X3b])
                    h.raises(ValueError, lambda: m.get_error_independence_p_values(bad), f"{nm}.get_error_independence_p_values rejects dataset list {k}")
                    h.raises(ValueError, lambda: m.estimate_total_effect(bad, 0, 1), f"{nm}.estimate_total_effect rejects dataset list {k}")
        @h.do("dataset list " + nm, ok=1)
        def _():
            mk().fit([X3, X3b])
            mk().fit([X3, X3b, X3 + X3b])
            if nm != "LongitudinalLiNGAM":
                mk().fit([X3, X3s])        # groups may differ in size
            h.check(True, "accepted")
    for k, sh in enumerate([(2, 2, 3), (2, 3, 3), (3, 3), (2,), (2, 2, 3, 3, 1)]):
        @h.do("longitudinal prior knowledge", dims=k)
        def _():
            h.raises(ValueError, lambda: lingam.LongitudinalLiNGAM(prior_knowledge=np.full(sh, -1)), f"prior knowledge with {len(sh)} dimensions is rejected")
    for T, L in ((2, 1), (3, 1), (3, 2)):
        for k, d in enumerate([(1, 0, 0, 0), (-1, 0, 0, 0), (0, 1, 0, 0), (0, -1, 0, 0), (0, 0, 1, 1), (0, 0, -1, -1), (0, 0, 1, 0), (0, 0, 0, 1)]):
            @h.do("longitudinal prior knowledge", T=T, L=L, k=k)
            def _():
                sh = tuple(np.array((T, L + 1, 3, 3)) + d)
                Xs = [make_data(h.rng("lon", t), 3, 40) for t in range(T)]
                if min(sh) > 0:
                    h.raises(ValueError, lambda: lingam.LongitudinalLiNGAM(n_lags=L, prior_knowledge=np.full(sh, -1)).fit(Xs),
                             f"prior knowledge of shape {sh} for {T} time points and {L} lags is rejected")
                lingam.LongitudinalLiNGAM(n_lags=L, prior_knowledge=np.full((T, L + 1, 3, 3), -1)).fit(Xs)
                h.check(True, "the documented shape is accepted")

    # ---- inner models
    for k, bad in enumerate([lingam.RCD(), lingam.CAMUV(), lingam.BottomUpParceLiNGAM(), LinearRegression(), "DirectLiNGAM", 3, lingam.DirectLiNGAM]):
        @h.do("inner model", k=k)
        def _():
            X = make_data(h.rng("im"), 3, 60)
            h.raises(ValueError, lambda: lingam.VARLiNGAM(lingam_model=bad).fit(X), "VARLiNGAM rejects a model that is not a LiNGAM")
            h.raises(ValueError, lambda: lingam.VARMALiNGAM(order=(1, 1), lingam_model=bad).fit(X), "VARMALiNGAM rejects a model that is not a LiNGAM")

    # ---- settings are used unchanged
    n_use = h.pick(4, 40)
    for r in range(n_use):
        for n in (3, 4):
            X = make_data(h.rng("use", r, n), n, 50)
            X2 = make_data(h.rng("use2", r, n), n, 45)
            mks = {
                "RCD": (lambda **k: lingam.RCD(**k), X, "ind_alpha"),
                "MultiGroupRCD": (lambda **k: lingam.MultiGroupRCD(**dict(dict(MLHSICR=False), **k)), [X, X2], "ind_alpha"),
                "CAMUV": (lambda **k: lingam.CAMUV(**k), X, "alpha"),
                "MultiGroupCAMUV": (lambda **k: lingam.MultiGroupCAMUV(**k), [X, X2], "alpha"),
                "BottomUpParceLiNGAM": (lambda **k: lingam.BottomUpParceLiNGAM(**k), X, "alpha"),
            }
            for nm, (mk, data, alph) in mks.items():
                @h.do("settings used " + nm, n=n, rep=r)
                def _():
                    for kind in ("hsic", "fcorr"):
                        with oracle_tests(("k", r)) as o:
                            mk(independence=kind).fit(data)
                        if kind == "fcorr" and nm == "BottomUpParceLiNGAM":
                            h.check(o.kinds <= {"fcorr"}, "only the chosen independence measure is used", got=o.kinds)
                        else:
                            h.check(o.kinds <= {kind}, "only the chosen independence measure is used", got=o.kinds, chosen=kind)
                    if nm in ("RCD", "MultiGroupRCD"):
                        for bw in ("mdbs", "scott", "silverman"):
                            with oracle_tests(("b", r)) as o:
                                mk(bw_method=bw).fit(data)
                            h.check(o.bws <= {bw}, "the chosen bandwidth is used", got=o.bws, chosen=bw)
                    # only the position of the threshold among the test outcomes matters
                    lev = np.array([0.001, 0.004, 0.02, 0.2, 0.7, 0.95])
                    if nm == "BottomUpParceLiNGAM":
                        return              # combines p-values by Fisher's method
                    for thr_i in ((0, 2, 3) if not h.thorough and "CAMUV" in nm else range(len(lev) + 1)):
                        outs = []
                        for lv in (lev, lev ** 2, np.sqrt(lev)):
                            if nm.startswith("Multi"):
                                break       # p-values of the groups are combined by Fisher's method
                            t = (lv[thr_i - 1] + lv[thr_i]) / 2 if 0 < thr_i < len(lv) else (0.0 if thr_i == 0 else 1.0)
                            with oracle_tests(("t", r), levels=tuple(lv)):
                                outs.append(digest(mk(**{alph: t}).fit(data)))
                        h.check(nm.startswith("Multi") or outs[0] == outs[1] == outs[2], f"{alph} is compared with the p-values as given", threshold_rank=thr_i, got=outs)
                        outs = []
                        for lv in (lev, lev ** 2, np.sqrt(lev)):
                            t = (lv[thr_i - 1] + lv[thr_i]) / 2 if 0 < thr_i < len(lv) else (0.0 if thr_i == 0 else 1.0)
                            with oracle_tests(("t", r), levels=tuple(lv)):
                                outs.append(digest(mk(independence="fcorr", ind_corr=t).fit(data)))
                        h.check(outs[0] == outs[1] == outs[2], "ind_corr is compared with the F-correlation as given", threshold_rank=thr_i, got=outs)
                    if nm == "RCD":
                        for p in ("cor_alpha", "shapiro_alpha"):
                            for thr_i in range(len(lev)):
                                outs = []
                                for lv in (lev, lev ** 2, np.sqrt(lev)):
                                    other = "shapiro_alpha" if p == "cor_alpha" else "cor_alpha"
                                    t = (lv[thr_i - 1] + lv[thr_i]) / 2 if 0 < thr_i else 0.0
                                    with oracle_tests(("t", r), levels=tuple(lv), stats=True, clip=lv[2]):
                                        outs.append(digest(mk(**{p: t, other: 1.0, "ind_alpha": (lv[2] + lv[3]) / 2}).fit(data)))
                                h.check(outs[0] == outs[1] == outs[2], f"{p} is compared with the p-values as given", threshold_rank=thr_i, got=outs)


if __name__ == "__main__":
    main("C18", run)
