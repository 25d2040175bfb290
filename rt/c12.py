"""C12: the causal simulator reproduces and propagates exactly."""
import numpy as np
import pandas as pd
from sklearn.ensemble import RandomForestRegressor
from sklearn.linear_model import LinearRegression, LogisticRegression
from sklearn.model_selection import GridSearchCV
from sklearn.neighbors import KNeighborsRegressor
from sklearn.pipeline import make_pipeline
from sklearn.preprocessing import PolynomialFeatures, StandardScaler
from sklearn.tree import DecisionTreeRegressor

import lingam
from rt.base import *


def models_for(r):
    return [LinearRegression(), DecisionTreeRegressor(max_depth=3, random_state=0), KNeighborsRegressor(3),
            make_pipeline(PolynomialFeatures(2), LinearRegression()), LinearRegression(fit_intercept=False),
            GridSearchCV(DecisionTreeRegressor(random_state=0), {"max_depth": [1, 2]}, cv=2)][r % 6]


def descendants(parents, start):
    out, todo = set(start), list(start)
    while todo:
        v = todo.pop()
        for t, ps in parents.items():
            if v in ps and t not in out:
                out.add(t)
                todo.append(t)
    return out


def acyclic(parents):
    left = set(parents)
    while left:
        free = [v for v in left if not any(p in left for p in parents[v])]
        if not free:
            return False
        left -= set(free)
    return True


def columns(kind, n):
    return [[str(i) for i in range(n)], [f"v{n - i}" for i in range(n)], list("zyxwvuts")[:n]][kind]


class Setup:
    """graph, data and the names the simulator is documented to use"""

    def __init__(self, h, algo, n, r, rng):
        self.algo = algo
        B, p = random_dag(rng, n, [.5, .9, .3][r % 3])
        X = sem_data(rng, B, p, 40, "exp") * rng.uniform(.5, 2, n) + rng.uniform(-3, 3, n)
        kind = r % 3
        cols = columns(kind, n)
        self.X = pd.DataFrame(X, columns=cols) if kind else X
        G = B.copy()
        if algo == "BottomUpParceLiNGAM":
            un = p[:2 + r % 2]
            for i in un:
                for j in un:
                    if i != j:
                        G[i, j] = np.nan
        if algo == "VARLiNGAM":
            L = 1 + r % 3
            lag = [np.where(rng.rand(n, n) < .4, rng.uniform(-1, 1, (n, n)), 0) for _ in range(L)]
            if r % 4 == 1:
                lag[-1] = np.zeros((n, n))
            G = np.array([B] + lag)
            self.L = L
            self.names = [c + ("[t]" if k == 0 else f"[t-{k}]") for k in range(L + 1) for c in cols]
            flat = np.concatenate(list(G), axis=1)
            self.parents = {nm: [] for nm in self.names}
            for i in range(n):
                self.parents[self.names[i]] = [self.names[j] for j in range(flat.shape[1]) if flat[i, j] != 0]
            T = len(X)
            self.data = {}
            for k in range(L + 1):
                for i in range(n):
                    self.data[self.names[k * n + i]] = np.array([X[t - k, i] for t in range(L, T)])
        else:
            self.names = cols
            Z = np.nan_to_num(G, nan=0.)
            self.parents = {cols[i]: [cols[j] for j in range(n) if Z[i, j] != 0] for i in range(n)}
            self.data = {cols[i]: X[:, i] for i in range(n)}
        self.G = [G, G.tolist()][r % 2] if algo != "BottomUpParceLiNGAM" else G
        self.n, self.len = n, len(self.data[self.names[0]])


def expected(s, tr, exog, changed, order_of_rows=None):
    """evaluate every equation at the simulated parents, recursively"""
    out = {}
    rows = np.arange(s.len) if order_of_rows is None else order_of_rows

    def val(v):
        if v in out:
            return out[v]
        ps = changed[v]["parent_names"] if v in changed else s.parents[v]
        err = np.asarray(exog[v], float).ravel() if v in exog else np.asarray(tr[v]["residual"])
        err = err[rows]
        if not ps:
            out[v] = err
            return err
        P = np.column_stack([val(p) for p in ps])
        if v in changed:
            c = changed[v]
            pred = P @ np.asarray(c["coef"], float) if "coef" in c else np.ravel(c["model"].predict(P))
        else:
            pred = np.ravel(tr[v]["model"].predict(P))
        out[v] = pred + err
        return out[v]
    for v in s.names:
        val(v)
    return out


def same(got, exp, names):
    return list(got.columns) == list(names) and all(np.allclose(np.asarray(got[v], float), exp[v], atol=1e-7) for v in names)


def run(h):
    for algo in ("DirectLiNGAM", "ICALiNGAM", None, "BottomUpParceLiNGAM", "VARLiNGAM"):
        for n in (2, 3, 4, 5, 6):
            for r in range(h.pick(6, 36)):
                @h.do("continuous", algo=algo, n=n, rep=r)
                def _():
                    rng = h.rng("c", algo, n, r)
                    s = Setup(h, algo or "DirectLiNGAM", n, r, rng)
                    models = None
                    if r % 3 == 2:
                        models = {v: models_for(rng.randint(6)) for v in s.names if rng.rand() < .5}
                    sim = lingam.CausalBasedSimulator() if hasattr(lingam, "CausalBasedSimulator") else lingam.causal_based_simulator.CausalBasedSimulator()
                    X0, G0 = np.array(s.X, float), np.array(s.G, float)
                    out = sim.train(s.X, s.G, cd_algo_name=algo, models=models)
                    h.check(out is sim, "train returns self")
                    tr = sim.train_result_
                    h.check(set(tr) == set(s.names), "one equation per variable", got=list(tr), expected=s.names)
                    for v in s.names:
                        ps = s.parents[v]
                        h.check(list(tr[v]["parent_names"]) == ps, "parents of an equation", v=v, got=tr[v]["parent_names"], expected=ps)
                        if ps:
                            P = np.column_stack([s.data[p] for p in ps])
                            m = tr[v]["model"]
                            h.check(np.allclose(np.ravel(m.predict(P)) + tr[v]["residual"], s.data[v]), "prediction plus residual is the training data", v=v)
                            if not (models and v in models):
                                ref = LinearRegression().fit(P, s.data[v])
                                h.check(np.allclose(m.coef_, ref.coef_, atol=1e-6) and np.isclose(m.intercept_, ref.intercept_, atol=1e-6), "default equation is the linear regression on the parents", v=v)
                            else:
                                h.check(type(m) is type(models[v]) and m is not models[v], "given model is cloned and used", v=v)
                        else:
                            h.check(np.allclose(tr[v]["residual"], s.data[v]), "a variable without parents is its own error", v=v)
                    h.check(np.array_equal(np.array(s.X, float), X0) and np.array_equal(np.array(s.G, float), G0, equal_nan=True), "data and graph unchanged")
                    base = sim.run()
                    h.check(len(base) == s.len and same(base, s.data, s.names), "unchanged inputs reproduce the training data")
                    for k in range(h.pick(4, 8)):
                        exog, changed = {}, {}
                        for v in s.names:
                            if rng.rand() < .3:
                                e = rng.normal(size=s.len) * 3
                                exog[v] = [e, e.tolist(), e.reshape(-1, 1), pd.Series(e)][rng.randint(4)]
                        for v in s.names:
                            if rng.rand() < .35:
                                ps = [p for p in s.names if p != v and rng.rand() < .4]
                                rng.shuffle(ps)
                                trial = dict(s.parents)
                                for c in changed:
                                    trial[c] = changed[c]["parent_names"]
                                trial[v] = ps
                                if not acyclic(trial):
                                    continue
                                ch = {"parent_names": list(ps)}
                                if ps and rng.rand() < .6:
                                    co = rng.uniform(-2, 2, len(ps))
                                    ch["coef"] = [co, co.tolist()][rng.randint(2)]
                                elif ps:
                                    m = models_for(rng.randint(4))
                                    m.fit(rng.normal(size=(30, len(ps))), rng.normal(size=30))
                                    ch["model"] = m
                                changed[v] = ch
                        got = sim.run(changing_exog=exog or None, changing_models=changed or None)
                        exp = expected(s, tr, {v: np.asarray(e, float) for v, e in exog.items()}, changed)
                        h.check(same(got, exp, s.names), "every variable equals its equation at the simulated parents plus its error", exog=list(exog), changed={c: changed[c]["parent_names"] for c in changed})
                        final = dict(s.parents)
                        for c in changed:
                            final[c] = changed[c]["parent_names"]
                        hit = descendants(final, set(exog) | set(changed))
                        h.check(all(np.allclose(np.asarray(got[v], float), s.data[v], atol=1e-7) for v in s.names if v not in hit), "only changed variables and their descendants change")
                        h.check(all(len(v["parent_names"]) >= 0 for v in changed.values()), "")
                    again = sim.run()
                    h.check(same(again, s.data, s.names), "a run leaves the simulator unchanged")
                    sh = sim.run(shuffle_residual=True, random_state=int(rng.randint(1000)))
                    A = np.column_stack([np.asarray(sh[v], float) for v in s.names])
                    Bm = np.column_stack([s.data[v] for v in s.names])
                    perm = [int(np.argmin(np.abs(Bm - a).sum(1))) for a in A]
                    h.check(np.allclose(A, Bm[perm], atol=1e-7), "shuffled residuals move all errors of a row together")
                    h.check(sorted(perm) == list(range(s.len)), "shuffling is a permutation of the rows")
    for r in range(h.pick(12, 60)):
        @h.do("discrete", rep=r)
        def _():
            rng = h.rng("d", r)
            n = 4
            B, p = random_dag(rng, n, .9)
            X = sem_data(rng, B, p, 80, "exp")
            d = p[1 + r % 3]
            X[:, d] = (X[:, d] > np.median(X[:, d])).astype(float)
            disc = [i == d for i in range(n)]
            names = [str(i) for i in range(n)]
            sim = lingam.CausalBasedSimulator()
            sim.train(X, B, is_discrete=disc)
            tr = sim.train_result_
            got = sim.run()
            out = {}
            for i in p:
                ps = [j for j in range(n) if B[i, j] != 0]
                if not ps:
                    out[i] = X[:, i]
                    continue
                P = np.column_stack([out[j] for j in ps])
                T = np.column_stack([X[:, j] for j in ps])
                if i == d:
                    ref = LogisticRegression().fit(T, X[:, i])
                    out[i] = ref.predict(P)
                else:
                    ref = LinearRegression().fit(T, X[:, i])
                    out[i] = ref.predict(P) + X[:, i] - ref.predict(T)
            h.check(all(np.allclose(np.asarray(got[names[i]], float), out[i], atol=1e-6) for i in range(n)), "discrete variables are predicted, continuous ones are equation plus error", discrete=d)
            h.raises(RuntimeError, lambda: sim.run(changing_exog={str(d): X[:, d]}), "exogenous data for a discrete variable")
            ps = [names[j] for j in p[:p.index(d)]]
            co = rng.uniform(-1, 1, len(ps))
            got = sim.run(changing_models={str(d): {"parent_names": ps, "coef": co}})
            P = np.column_stack([np.asarray(got[q], float) for q in ps])
            h.check(np.array_equal(np.asarray(got[str(d)], float), (P @ co >= 0).astype(float)), "given logistic coefficients")
            _ = tr
    for algo in ("DirectLiNGAM", "ICALiNGAM", "BottomUpParceLiNGAM", "VARLiNGAM"):
        for n in (2, 3, 4, 5):
            for r in range(h.pick(3, 15)):
                @h.do("rejections", algo=algo, n=n, rep=r)
                def _():
                    rng = h.rng("r", algo, n, r)
                    s = Setup(h, algo, n, r, rng)
                    sim = lingam.CausalBasedSimulator
                    # a directed cycle through k variables, hidden in an otherwise acyclic graph
                    k = 1 + r % n if n > 1 else 1
                    cyc = list(rng.permutation(n)[:k])
                    G = np.nan_to_num(np.array(s.G, float), nan=0.)
                    A = G if algo != "VARLiNGAM" else G[0]
                    for a, b in zip(cyc, cyc[1:] + cyc[:1]):
                        A[b, a] = rng.choice([-1, 1]) * rng.uniform(.2, 2)
                    h.raises(ValueError, lambda: sim().train(s.X, G, cd_algo_name=algo), f"cyclic graph {A.tolist()}")
                    m = sim().train(s.X, s.G, cd_algo_name=algo)
                    v, w = s.names[0], s.names[1]
                    h.raises(RuntimeError, lambda: m.run(changing_exog={"nope": np.zeros(s.len)}), "unknown name in exogenous data")
                    h.raises(RuntimeError, lambda: m.run(changing_exog={v: np.zeros(s.len + 1)}), "longer exogenous data")
                    h.raises(RuntimeError, lambda: m.run(changing_exog={v: np.zeros(s.len - 1)}), "shorter exogenous data")
                    h.raises(RuntimeError, lambda: m.run(changing_models={"nope": {"parent_names": []}}), "unknown target")
                    h.raises(RuntimeError, lambda: m.run(changing_models={v: {"parent_names": ["nope"], "coef": [1]}}), "unknown parent")
                    h.raises(ValueError, lambda: m.run(changing_models={v: {"parent_names": [w], "coef": [1, 2]}}), "wrong number of coefficients")
                    h.raises(RuntimeError, lambda: sim().train(s.X, s.G, cd_algo_name=algo, models={"nope": LinearRegression()}), "unknown model name")
                    h.raises(ValueError, lambda: sim().train(s.X, s.G, cd_algo_name="nope"), "unknown algorithm")
                    # cyclic changes: all acyclic edge-by-edge additions pass, all others are rejected
                    for _i in range(6):
                        ch = {}
                        for t in s.names:
                            if rng.rand() < .5:
                                ps = [q for q in s.names if rng.rand() < .3]
                                ch[t] = {"parent_names": ps, "coef": [float(rng.uniform(-1, 1)) for _ in ps]}
                        trial = dict(s.parents)
                        for c in ch:
                            trial[c] = ch[c]["parent_names"]
                        if acyclic(trial):
                            got = m.run(changing_models=ch)
                            h.check(same(got, expected(s, m.train_result_, {}, ch), s.names), "acyclic changes are simulated")
                        else:
                            h.raises(ValueError, lambda: m.run(changing_models=ch), "cyclic changes")
                    got = m.run()
                    h.check(same(got, s.data, s.names), "rejected calls leave the simulator unchanged")


if __name__ == "__main__":
    main("C12", run)
