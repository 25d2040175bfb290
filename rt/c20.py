"""C20: results do not depend on how the data are represented."""
import numpy as np
import pandas as pd
from sklearn.linear_model import LinearRegression

import lingam
from lingam.utils import extract_ancestors, make_prior_knowledge, remove_effect
from rt.base import *


class OrderFree:
    """least squares by normal equations on float64 copies"""

    def fit(self, X, y):
        self._r = LinearRegression().fit(np.array(X, float), np.array(y, float))
        return self

    def predict(self, X):
        return self._r.predict(np.array(X, float))


def reps_of(F, integer):
    out = {}
    if integer:
        for t in (int, np.int32, np.int16):
            out[str(np.dtype(t))] = F.astype(t)
        out["list of ints"] = F.astype(int).tolist()
        out["DataFrame of ints"] = pd.DataFrame(F.astype(int))
    out["list"] = F.tolist()
    out["DataFrame"] = pd.DataFrame(F)
    out["named DataFrame"] = pd.DataFrame(F, columns=[f"v{i}" for i in range(F.shape[1])])
    out["indexed DataFrame"] = pd.DataFrame(F, index=np.arange(len(F))[::-1] + 100)
    out["Fortran order"] = np.asfortranarray(F)
    big = np.full((2 * len(F), F.shape[1] + 2), 7.0)
    big[::2, 1:-1] = F
    out["strided view"] = big[::2, 1:-1]
    ro = F.copy()
    ro.setflags(write=False)
    out["read-only"] = ro
    return out


def result(mod):
    out = {}
    for nm in ("causal_order_", "causal_orders_", "ancestors_list_"):
        if hasattr(mod, nm):
            out[nm] = repr([[str(v) for v in o] if hasattr(o, "__iter__") else str(o) for o in getattr(mod, nm)]
                           if getattr(mod, nm) is not None else None) if nm != "ancestors_list_" else repr([sorted(a) for a in getattr(mod, nm)])
    for nm in ("adjacency_matrix_", "adjacency_matrices_"):
        if hasattr(mod, nm):
            v = getattr(mod, nm)
            out[nm] = np.concatenate([np.ravel(np.array(x, float)) for x in v]) if isinstance(v, (list, tuple)) else np.ravel(np.array(v, float))
    return out


def same(a, b):
    if a.keys() != b.keys():
        return False
    for k in a:
        if isinstance(a[k], str):
            if a[k] != b[k]:
                return False
        elif a[k].shape != b[k].shape or not np.allclose(a[k], b[k], rtol=1e-6, atol=1e-8, equal_nan=True):
            return False
    return True


def run(h):
    R = h.pick(3, 20)
    single = {
        "DirectLiNGAM": lambda n: lingam.DirectLiNGAM(),
        "DirectLiNGAM kernel": lambda n: lingam.DirectLiNGAM(measure="kernel"),
        "DirectLiNGAM prior": lambda n: lingam.DirectLiNGAM(prior_knowledge=make_prior_knowledge(n, no_paths=[[1, 0]])),
        "DirectLiNGAM soft": lambda n: lingam.DirectLiNGAM(prior_knowledge=make_prior_knowledge(n, no_paths=[[1, 0]]), apply_prior_knowledge_softly=True),
        "ICALiNGAM": lambda n: lingam.ICALiNGAM(random_state=0),
        "HighDimDirectLiNGAM": lambda n: lingam.HighDimDirectLiNGAM(),
        "RCD": lambda n: lingam.RCD(),
        "RCD fcorr": lambda n: lingam.RCD(independence="fcorr"),
        "BottomUpParceLiNGAM": lambda n: lingam.BottomUpParceLiNGAM(),
        "BottomUpParceLiNGAM regressor": lambda n: lingam.BottomUpParceLiNGAM(regressor=OrderFree()),
        "BottomUpParceLiNGAM fcorr": lambda n: lingam.BottomUpParceLiNGAM(independence="fcorr"),
        "CAMUV": lambda n: lingam.CAMUV(),
        "RESIT": lambda n: lingam.RESIT(regressor=OrderFree()),
        "VARLiNGAM": lambda n: lingam.VARLiNGAM(),
        "VARLiNGAM unpruned": lambda n: lingam.VARLiNGAM(prune=False, lags=2, criterion=None),
    }
    multi = {
        "MultiGroupDirectLiNGAM": lambda: lingam.MultiGroupDirectLiNGAM(),
        "MultiGroupRCD": lambda: lingam.MultiGroupRCD(MLHSICR=False),
        "MultiGroupCAMUV": lambda: lingam.MultiGroupCAMUV(),
        "LongitudinalLiNGAM": lambda: lingam.LongitudinalLiNGAM(),
    }
    slow = ("CAMUV", "MultiGroupCAMUV", "RCD fcorr", "BottomUpParceLiNGAM fcorr", "DirectLiNGAM kernel")
    for r in range(R):
        for integer in (True, False):
            for n in (3, 4):
                def data(k):
                    rg = h.rng("d", r, n, k)
                    X = make_data(rg, n, 120 if k != "slow" else 60, rg.choice(["exp", "uniform", "t"]))
                    if integer:
                        X = np.round(3 * X)
                        X[0] = 50 + np.arange(n)      # keeps every column non-constant
                    return X
                for nm, mk in single.items():
                    if nm in slow and r > 0 and not h.thorough:
                        continue

                    @h.do(nm, n=n, rep=r, integer=integer)
                    def _():
                        F = data("slow" if nm in slow else 0)
                        ref_m = mk(n).fit(F.copy())
                        ref = result(ref_m)
                        for k, D in reps_of(F, integer).items():
                            m = mk(n).fit(D)
                            h.check(same(ref, result(m)), f"same result for the data as {k}", got=result(m), expected=ref)
                            if not nm.startswith(("VAR", "CAMUV")) and k in ("int64", "DataFrame", "list", "Fortran order") and r == 0:
                                if hasattr(m, "get_error_independence_p_values") and "RESIT" not in nm:
                                    h.check(np.allclose(m.get_error_independence_p_values(D), ref_m.get_error_independence_p_values(F), rtol=1e-5, atol=1e-8, equal_nan=True),
                                            f"same p-values for the data as {k}")
                                if hasattr(m, "estimate_total_effect") and "RESIT" not in nm:
                                    for a in range(n):
                                        for b in range(n):
                                            if a != b:
                                                h.check(np.allclose(m.estimate_total_effect(D, a, b), ref_m.estimate_total_effect(F, a, b), rtol=1e-6, atol=1e-8, equal_nan=True),
                                                        f"same total effect for the data as {k}", pair=(a, b))
                for nm, mk in multi.items():
                    if nm in slow and r > 0 and not h.thorough:
                        continue

                    @h.do(nm, n=n, rep=r, integer=integer)
                    def _():
                        F, G = (data(k)[:60] if nm in slow else data(k) for k in (1, 2))
                        ref = result(mk().fit([F.copy(), G.copy()]))
                        for k, D in reps_of(F, integer).items():
                            if nm in slow and k not in ("int64", "DataFrame", "Fortran order"):
                                continue
                            m = mk().fit([D, reps_of(G, integer)[k]])
                            h.check(same(ref, result(m)), f"same result for the data as {k}", got=result(m), expected=ref)
                            m = mk().fit([F, reps_of(G, integer)[k]])
                            h.check(same(ref, result(m)), f"same result when one dataset is {k}", got=result(m), expected=ref)

                @h.do("utilities", n=n, rep=r, integer=integer)
                def _():
                    F = data(3)
                    for k, D in reps_of(F, integer).items():
                        for rem in ([0], [n - 1], [0, 1], [1, 0]):
                            h.check(np.allclose(remove_effect(D, rem), remove_effect(F, rem), rtol=1e-6, atol=1e-8), f"remove_effect: same result for the data as {k}", removed=rem)
                        if k in ("int64", "DataFrame", "list", "Fortran order"):
                            h.check(repr(extract_ancestors(D)) == repr(extract_ancestors(F)), f"extract_ancestors: same result for the data as {k}")
                for te in ("bootstrap",):
                    @h.do(te, n=n, rep=r, integer=integer)
                    def _():
                        F = data(4)
                        outs = []
                        for k, D in [("float64", F.copy())] + list(reps_of(F, integer).items()):
                            np.random.seed(3)
                            res = lingam.DirectLiNGAM().bootstrap(D, 2)
                            outs.append((np.array(res.adjacency_matrices_), np.array(res.total_effects_)))
                            h.check(all(np.allclose(a, b, rtol=1e-6, atol=1e-8) for a, b in zip(outs[0], outs[-1])), f"bootstrap: same result for the data as {k}")


if __name__ == "__main__":
    main("C20", run)
