"""C11: intervention effects follow the structural equations."""
import copy

import numpy as np
import pandas as pd
from sklearn.linear_model import LinearRegression, LogisticRegression
from sklearn.tree import DecisionTreeRegressor

import lingam
from rt.base import *


def do(B, En, i, v):
    B2, E2 = np.array(B, float), np.array(En, float)
    B2[i] = 0
    E2[i] = v
    return np.linalg.solve(np.eye(len(B2)) - B2, E2)


class Quad:
    """nonlinear prediction that depends on the position of every input"""

    def __init__(self, w):
        self.w = np.asarray(w)

    def predict(self, X):
        X = np.asarray(X)
        return (X * self.w) ** 2 @ np.arange(1, X.shape[1] + 1) + X @ self.w


def oracle_effects(B, X, target, f):
    n = X.shape[1]
    rest = [k for k in range(n) if k != target]
    Ex = X.mean(0)
    En = Ex - B @ Ex
    out = []
    for i in range(n):
        base = f(do(B, En, i, Ex[i])[rest])
        out.append([abs(base - f(do(B, En, i, Ex[i] + X[:, i].std())[rest])), abs(base - f(do(B, En, i, Ex[i] - X[:, i].std())[rest]))])
    return np.array(out)


def special(rng, n, r):
    """graphs with cancelling coefficients and varied orders"""
    B, p = random_dag(rng, n, [.5, .9, 1.0][r % 3])
    if r % 4 == 1:
        for i in range(n):
            nz = np.nonzero(B[i])[0]
            if len(nz) > 1:
                B[i, nz[-1]] = -B[i, nz[:-1]].sum()
    return B, p


def run(h):
    for n in (2, 3, 4, 5, 6):
        for r in range(h.pick(10, 60)):
            @h.do("matrix given", n=n, rep=r)
            def _():
                rng = h.rng("m", n, r)
                B, p = special(rng, n, r)
                X = sem_data(rng, B, p, 50, "exp") * rng.uniform(.5, 3) + rng.uniform(-2, 2, n)
                B0, X0 = B.copy(), X.copy()
                given = [B, B.tolist(), np.asfortranarray(B)][r % 3]
                ce = lingam.CausalEffect(given)
                for target in range(n):
                    rest = [k for k in range(n) if k != target]
                    lr = LinearRegression().fit(X[:, rest], X[:, target])
                    q = Quad(rng.uniform(-1, 1, n - 1))
                    lg = LogisticRegression().fit(X[:, rest], (X[:, target] > np.median(X[:, target])).astype(int))
                    tr = DecisionTreeRegressor(max_depth=3, random_state=0).fit(X[:, rest], X[:, target])
                    for nm, m in (("linear", lr), ("nonlinear", q), ("logistic", lg), ("tree", tr)):
                        if nm == "logistic":
                            def f(v):
                                a, b = m.predict_proba(v.reshape(1, -1))[0]
                                return a - b
                        else:
                            def f(v):
                                return m.predict(v.reshape(1, -1))[0]
                        got = np.asarray(ce.estimate_effects_on_prediction(pd.DataFrame(X) if r % 2 else X, target, m))
                        exp = oracle_effects(B0, X0, target, f)
                        if nm == "tree":    # a leaf boundary may be hit by rounding
                            bad = np.abs(got - exp) > 1e-8
                            h.check(got.shape == exp.shape and bad.mean() <= .2, "effects on a tree prediction", got=got, expected=exp)
                        else:
                            h.check(got.shape == exp.shape and np.allclose(got, exp, atol=1e-8), f"effects on a {nm} prediction", target=target, got=got, expected=exp)
                    for iv in range(n):
                        if iv == target:
                            continue
                        Ex = X0.mean(0)
                        En = Ex - B0 @ Ex
                        slope = lr.predict((do(B0, En, iv, 1.0)[rest]).reshape(1, -1))[0] - lr.predict(do(B0, En, iv, 0.0)[rest].reshape(1, -1))[0]
                        if abs(slope) < 1e-6:
                            continue
                        for want in (0.0, 3.7):
                            v = ce.estimate_optimal_intervention(X, target, lr, iv, want)
                            got = lr.predict(do(B0, En, iv, float(np.ravel(v)[0]))[rest].reshape(1, -1))[0]
                            h.check(np.isclose(got, want, atol=1e-6), "the optimal intervention yields the requested prediction", target=target, iv=iv, value=v, got=got, want=want)
                h.check(np.array_equal(B, B0) and np.array_equal(X, X0) and np.array_equal(np.asarray(given), B0), "matrix and data unchanged")
    for mk in ("direct", "ica"):
        for n in (2, 3, 4):
            for r in range(h.pick(2, 8)):
                @h.do("fitted model", model=mk, n=n, rep=r)
                def _():
                    rng = h.rng("f", mk, n, r)
                    X = make_data(rng, n, 120, "exp") + rng.uniform(-3, 3, n)
                    mod = (lingam.DirectLiNGAM() if mk == "direct" else lingam.ICALiNGAM(random_state=0)).fit(X)
                    B, o = mod.adjacency_matrix_.copy(), copy.deepcopy(mod.causal_order_)
                    ce = lingam.CausalEffect(mod)
                    for target in range(n):
                        rest = [k for k in range(n) if k != target]
                        lr = LinearRegression().fit(X[:, rest], X[:, target])
                        got = ce.estimate_effects_on_prediction(X, target, lr)
                        exp = oracle_effects(B, X, target, lambda v: lr.predict(v.reshape(1, -1))[0])
                        h.check(np.allclose(got, exp, atol=1e-8), "effects with the fitted model", got=got, expected=exp)
                        for iv in rest:
                            Ex = X.mean(0)
                            En = Ex - B @ Ex
                            slope = lr.coef_ @ (do(B, En, iv, 1.0)[rest] - do(B, En, iv, 0.0)[rest])
                            if abs(slope) < 1e-6:
                                continue
                            v = ce.estimate_optimal_intervention(X, target, lr, iv, 1.5)
                            h.check(np.isclose(lr.predict(do(B, En, iv, float(v))[rest].reshape(1, -1))[0], 1.5, atol=1e-6), "optimal intervention with the fitted model")
                    h.check(np.array_equal(mod.adjacency_matrix_, B) and list(mod.causal_order_) == list(o), "model unchanged")

    X = make_data(h.rng("bad"), 3, 30)
    lr = LinearRegression().fit(X[:, :2], X[:, 2])
    for nm, m in {"cycle": np.array([[0, 1., 0], [1., 0, 0], [0, 0, 0]]), "three-cycle": np.array([[0, 0, 1.], [1., 0, 0], [0, 1., 0]]),
                  "self loop": np.diag([1., 0, 0]), "not square": np.zeros((3, 2)), "vector": np.zeros(3), "text": "x", "number": 3}.items():
        @h.do("refused causal models", kind=nm)
        def _():
            h.raises(ValueError, lambda: lingam.CausalEffect(m).estimate_effects_on_prediction(X, 2, lr), nm + " refused")
            h.raises(ValueError, lambda: lingam.CausalEffect(m).estimate_optimal_intervention(X, 2, lr, 0, 1.0), nm + " refused")
    @h.do("refused prediction models")
    def _():
        B = np.zeros((3, 3))
        h.raises(ValueError, lambda: lingam.CausalEffect(B).estimate_effects_on_prediction(X, 2, object()), "no prediction method")
        h.raises(ValueError, lambda: lingam.CausalEffect(B).estimate_optimal_intervention(X, 2, object(), 0, 1.0), "no coefficients")
        lg = LogisticRegression().fit(X[:, :2], X[:, 2] > 0)
        h.raises(ValueError, lambda: lingam.CausalEffect(B).estimate_optimal_intervention(X, 2, lg, 0, 1.0), "logistic model refused")


if __name__ == "__main__":
    main("C11", run)
