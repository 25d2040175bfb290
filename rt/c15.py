"""C15: bootstrap with imputation."""
import numpy as np
import pandas as pd

import lingam
from lingam.tools import BaseMultiGroupCDModel, BaseMultipleImputation, bootstrap_with_imputation
from rt.base import *


def missing(rng, X, rate):
    Z = np.array(X, float)
    Z[rng.rand(*Z.shape) < rate] = np.nan
    for j in range(Z.shape[1]):        # keep enough observed values
        if np.isnan(Z[:, j]).mean() > .8:
            Z[:, j] = X[:, j]
    return Z


class Imputer(BaseMultipleImputation):
    def __init__(self, k, seed, change=None, wrap=None):
        self.k, self.rng, self.change, self.wrap, self.log = k, np.random.RandomState(seed), change, wrap, []

    def fit_transform(self, X):
        self.log.append(("impute", np.array(X)))
        out = []
        for _ in range(self.k):
            Y = np.array(X, float)
            m = np.isnan(Y)
            Y[m] = self.rng.normal(size=m.sum()) * 10
            out.append(Y)
        if self.change:
            out = self.change(out)
        return self.wrap(out) if self.wrap else out


class Model(BaseMultiGroupCDModel):
    def __init__(self, seed, log, change=None):
        self.rng, self.log, self.change = np.random.RandomState(seed), log, change
        self.outs = []

    def before_imputation(self, X):
        self.log.append(("before", np.array(X)))

    def fit(self, X_list):
        self.log.append(("fit", [np.array(x) for x in X_list]))
        n = np.asarray(X_list[0]).shape[1]
        o = self.rng.permutation(n)
        mats = self.rng.normal(size=(len(X_list), n, n))
        self.outs.append((o.copy(), mats.copy()))
        res = (list(o), list(mats))
        return self.change(res) if self.change else res


def same(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def run(h):
    for n in (2, 3, 5):
        for S, k in ((1, 1), (1, 3), (3, 1), (4, 2), (5, 4)):
            for r in range(h.pick(3, 20)):
                @h.do("custom components", n=n, samples=S, repeats=k, rep=r)
                def _():
                    rng = h.rng("c", n, S, k, r)
                    X = missing(rng, make_data(rng, n, 20 + 5 * r, "exp"), [.2, .05, .5][r % 3])
                    if r % 3 == 0:
                        X[:, 0] = make_data(rng, n, len(X), "exp")[:, 0]
                    imp = Imputer(k, r, wrap=[None, np.array][r % 2])
                    mod = Model(r, imp.log)
                    X0 = X.copy()
                    # n_repeats is not used with a custom imputer
                    orders, mats, idx, res = bootstrap_with_imputation(pd.DataFrame(X) if r % 2 else X, S, n_repeats=7, imp=imp, cd_model=mod, random_state=[None, r][r % 2])
                    m = len(X)
                    h.check(np.shape(orders) == (S, n) and np.shape(mats) == (S, k, n, n) and np.shape(idx) == (S, m) and np.shape(res) == (S, k, m, n), "shapes",
                            got=[np.shape(a) for a in (orders, mats, idx, res)])
                    h.check([e[0] for e in imp.log] == ["before", "impute", "fit"] * S, "model is told before the imputation and fitted after it, once per sample", got=[e[0] for e in imp.log])
                    distinct = set()
                    for s in range(S):
                        _, before = imp.log[3 * s]
                        _, given = imp.log[3 * s + 1]
                        _, sets = imp.log[3 * s + 2]
                        ix = np.asarray(idx[s])
                        h.check(np.all((ix >= 0) & (ix < m)) and same(given, X0[ix]) and same(before, X0[ix]), "reported indices are the rows used", sample=s)
                        distinct.add(tuple(ix.tolist()))
                        h.check(len(sets) == k, "one data set per imputation")
                        obs = ~np.isnan(given)
                        for q in range(k):
                            h.check(np.array_equal(sets[q][obs], given[obs]) and not np.isnan(sets[q]).any(), "completed data agree on observed entries")
                            h.check(np.array_equal(np.isnan(res[s][q]), obs), "reported imputations are NaN exactly at observed entries")
                            h.check(np.array_equal(res[s][q][~obs], sets[q][~obs]), "reported imputations are the completed values")
                        h.check(np.array_equal(np.asarray(orders[s], int), mod.outs[s][0]) and same(mats[s], mod.outs[s][1]), "order and matrices of the sample", sample=s)
                    if m >= 15 and S > 1:
                        h.check(len(distinct) > 1, "samples differ")
                    if m >= 15:
                        h.check(all(len(set(t)) < m for t in distinct) and all(len(set(t)) > m // 4 for t in distinct), "rows are drawn with replacement from the whole data")
                    h.check(same(X, X0), "data unchanged")
    for n in (2, 3, 4):
        for r in range(h.pick(3, 12)):
            @h.do("default components", n=n, rep=r)
            def _():
                rng = h.rng("d", n, r)
                X = missing(rng, make_data(rng, n, 60, "exp"), .15)
                S, k = 2, 1 + (r + 1) % 3
                if k == 1:
                    k = 2
                pk = None
                if r % 2:
                    pk = -np.ones((n, n), int)
                    pk[0, 1] = 0
                    pk[1, 0] = 1 if r % 4 == 1 else -1
                orders, mats, idx, res = bootstrap_with_imputation(X, S, n_repeats=k, prior_knowledge=pk, random_state=r)
                h.check(np.shape(orders) == (S, n) and np.shape(mats) == (S, k, n, n) and np.shape(idx) == (S, 60) and np.shape(res) == (S, k, 60, n), "shapes")
                for s in range(S):
                    B = X[np.asarray(idx[s])]
                    obs = ~np.isnan(B)
                    sets = []
                    for q in range(k):
                        h.check(np.array_equal(np.isnan(res[s][q]), obs), "imputations are NaN exactly at observed entries")
                        sets.append(np.where(obs, B, res[s][q]))
                    h.check(k == 1 or not obs.all() and not np.array_equal(res[s][0], res[s][1], equal_nan=True) or obs.all(), "repeated imputations differ")
                    ref = lingam.MultiGroupDirectLiNGAM(prior_knowledge=pk).fit(sets)
                    h.check([int(v) for v in orders[s]] == [int(v) for v in ref.causal_order_], "order of the model fitted to the completed data", got=orders[s], expected=ref.causal_order_)
                    for q in range(k):
                        h.check(np.allclose(mats[s][q], ref.adjacency_matrices_[q], atol=1e-8), "matrix of the model fitted to the completed data", repeat=q)
                a = bootstrap_with_imputation(X, S, n_repeats=k, prior_knowledge=pk, random_state=r)
                h.check(all(same(u, v) for u, v in zip(a, (orders, mats, idx, res))), "reproducible with a seed")
    bad_imp = {
        "missing rows": lambda o: [y[:-1] for y in o], "missing columns": lambda o: [y[:, :-1] for y in o],
        "extra rows": lambda o: [np.vstack([y, y[:1]]) for y in o], "extra columns": lambda o: [np.hstack([y, y[:, :1]]) for y in o],
        "transposed": lambda o: [y.T for y in o], "one array": lambda o: o[0], "nan left": lambda o: [np.where(np.arange(y.size).reshape(y.shape) == 3, np.nan, y) for y in o],
        "inf": lambda o: [np.where(np.arange(y.size).reshape(y.shape) == 3, np.inf, y) for y in o], "none": lambda o: None, "empty": lambda o: [],
        "text": lambda o: "abc", "ragged": lambda o: [o[0], o[0][:-1]], "nested": lambda o: [o],
    }
    bad_cd = {
        "not a tuple": lambda r: [r[0], r[1]], "three": lambda r: (r[0], r[1], 1), "one": lambda r: (r[0],), "short order": lambda r: (r[0][:-1], r[1]),
        "long order": lambda r: (r[0] + [r[0][0]], r[1]), "repeated": lambda r: ([r[0][0]] * len(r[0]), r[1]), "out of range": lambda r: ([v + 1 for v in r[0]], r[1]),
        "negative": lambda r: ([v - 1 for v in r[0]], r[1]), "fraction": lambda r: ([v + .5 for v in r[0]], r[1]), "nan order": lambda r: ([np.nan] * len(r[0]), r[1]),
        "matrix rows": lambda r: (r[0], [b[:-1] for b in r[1]]), "matrix columns": lambda r: (r[0], [b[:, :-1] for b in r[1]]), "nan matrix": lambda r: (r[0], [b * np.nan for b in r[1]]),
        "no matrices": lambda r: (r[0], None), "text": lambda r: (r[0], "ab"), "order none": lambda r: (None, r[1]), "none": lambda r: None,
        "larger": lambda r: (r[0], [np.pad(b, 1) for b in r[1]]),
    }
    for kind, table in (("imputer", bad_imp), ("model", bad_cd)):
        for name, f in table.items():
            for late in (0, 1):
                @h.do("specification", component=kind, defect=name, late=late)
                def _():
                    rng = h.rng("b", kind, name)
                    n = 3
                    X = missing(rng, make_data(rng, n, 20, "exp"), .2)
                    calls = [0]

                    def change(o):
                        calls[0] += 1
                        return f(o) if calls[0] > late else o
                    imp = Imputer(2, 0, change=change if kind == "imputer" else None)
                    mod = Model(0, imp.log, change=change if kind == "model" else None)
                    h.raises(ValueError, lambda: bootstrap_with_imputation(X, 1 + late, imp=imp, cd_model=mod), f"{kind}: {name}")
    for case in ("samples 0", "samples -1", "samples 1.5", "repeats 0", "repeats 1.5", "imp", "cd", "pk shape", "pk rect", "inf"):
        @h.do("arguments", case=case)
        def _():
            X = missing(h.rng("a"), make_data(h.rng("a"), 3, 20), .2)
            E = (ValueError, TypeError)
            B = bootstrap_with_imputation
            c = {"samples 0": lambda: B(X, 0), "samples -1": lambda: B(X, -1), "samples 1.5": lambda: B(X, 1.5), "repeats 0": lambda: B(X, 1, 0), "repeats 1.5": lambda: B(X, 1, 1.5),
                 "imp": lambda: B(X, 1, imp=object()), "cd": lambda: B(X, 1, cd_model=lingam.DirectLiNGAM()), "pk shape": lambda: B(X, 1, prior_knowledge=-np.ones((2, 2))),
                 "pk rect": lambda: B(X, 1, prior_knowledge=-np.ones((3, 4))), "inf": lambda: B(np.where(np.isnan(X), np.inf, X), 1)}[case]
            h.raises(E, c, case)


if __name__ == "__main__":
    main("C15", run)
