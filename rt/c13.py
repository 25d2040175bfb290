"""C13: estimated total effects adjust for exactly the parents of the source."""
import warnings

import numpy as np
import pandas as pd

import lingam
from rt.base import *
from rt.c06 import confounded


def regression(X, row, fr, to):
    """coefficient of fr in the least-squares regression of to on fr and the parents of fr"""
    X = np.asarray(X, float)
    par = [j for j in range(len(row)) if not np.isnan(row[j]) and row[j] != 0]
    A = X[:, [fr] + par]
    A = A - A.mean(0)
    s = A.std(0)
    y = X[:, to] - X[:, to].mean()
    return np.linalg.lstsq(A / s, y, rcond=None)[0][0] / s[0]


def call(fn):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        v = fn()
    w = [str(x.message) for x in w if issubclass(x.category, UserWarning) and "causal effect may be incorrect" in str(x.message)]
    return v, sum("causal order" in x for x in w), sum("confounder" in x for x in w)


def same(a, b):
    a, b = float(a), float(b)
    return (np.isnan(a) and np.isnan(b)) or np.isclose(a, b, rtol=1e-6, atol=1e-8)


def sweep(h, mod, Xs, Bs, reversed_, group=False, sources=None):
    n = len(Bs[0])
    eff = [total_effects(B) for B in Bs]
    for fr in (sources if sources is not None else range(n)):
        for to in range(n):
            if fr == to:
                continue
            nan = any(np.isnan(np.asarray(B)[fr]).any() for B in Bs)
            ifr, ito = (fr, to) if (fr + to) % 2 else (np.int64(fr), np.int64(to))
            data = list(Xs) if group else Xs[0]
            v, w, c = call(lambda: mod.estimate_total_effect(data, ifr, ito))
            h.check((w > 0) == reversed_(fr, to), "warning exactly when the destination precedes the source", pair=(fr, to), warned=w)
            h.check((c > 0) == nan, "warning exactly when the source has NaN coefficients", pair=(fr, to), warned=c)
            if group:
                if nan:
                    h.check(len(v) == 0, "no effect for a confounded source", pair=(fr, to), got=v)
                else:
                    h.check(len(v) == len(Xs), "one effect per group", got=len(v))
                    for g in range(len(Xs)):
                        exp = regression(Xs[g], np.asarray(Bs[g])[fr], fr, to)
                        h.check(same(v[g], exp), "effect of a group is the regression on source and parents", pair=(fr, to), g=g, got=v[g], expected=exp)
            elif nan:
                h.check(np.isnan(v), "NaN for a confounded source", pair=(fr, to), got=v)
            else:
                exp = regression(Xs[0], np.asarray(Bs[0])[fr], fr, to)
                h.check(same(v, exp), "effect is the regression on source and parents", pair=(fr, to), got=v, expected=exp)
            if any(t is None for t in eff) or not hasattr(mod, "estimate_total_effect2"):
                continue
            v, w, c = call(lambda: mod.estimate_total_effect2(ifr, ito))
            h.check((w > 0) == reversed_(fr, to), "warning of the matrix based effect", pair=(fr, to), warned=w)
            h.check((c > 0) == nan, "warning of the matrix based effect, NaN coefficients", pair=(fr, to), warned=c)
            if group:
                h.check(len(v) == (0 if nan else len(Xs)) and all(same(a, t[to, fr]) for a, t in zip(v, eff)), "matrix based effects are the path sums", pair=(fr, to), got=v)
            elif nan:
                h.check(np.isnan(v), "NaN for a confounded source (matrix based)", pair=(fr, to), got=v)
            else:
                h.check(same(v, eff[0][to, fr]), "matrix based effect is the path sum", pair=(fr, to), got=v, expected=eff[0][to, fr])


def data(rng, n, m, r):
    B, p = random_dag(rng, n, [.6, 1.0, .4][r % 3])
    if r % 4 == 3:
        B *= rng.choice([.03, .1, 1.0], size=B.shape)
    X = sem_data(rng, B, p, m, ["exp", "uniform", "t"][r % 3])
    if r % 5 == 4:
        X = X * 10.0 ** rng.randint(-2, 3, n) + rng.uniform(-5, 5, n)
    return X


def run(h):
    for mk in ("direct", "ica", "highdim"):
        for n in (2, 3, 4, 5, 6):
            for r in range(h.pick(5, 30)):
                if mk == "highdim" and (n > 4 or r > h.pick(2, 8)):
                    continue

                @h.do("single", model=mk, n=n, rep=r)
                def _():
                    rng = h.rng("s", mk, n, r)
                    X = data(rng, n, 300 if r % 4 != 3 else 3000, r)
                    mod = {"direct": lambda: lingam.DirectLiNGAM(), "ica": lambda: lingam.ICALiNGAM(random_state=0),
                           "highdim": lambda: lingam.HighDimDirectLiNGAM(random_state=0)}[mk]()
                    mod.fit(pd.DataFrame(X) if r % 2 else X)
                    B = np.array(mod.adjacency_matrix_)
                    pos = {int(v): i for i, v in enumerate(mod.causal_order_)}
                    for Y in (X, data(rng, n, 60, r + 1)):     # the data of the fit, and other data
                        sweep(h, mod, [pd.DataFrame(Y) if r % 3 == 1 else Y], [B], lambda f, t: pos[f] > pos[t])
                    h.check(np.array_equal(B, mod.adjacency_matrix_), "fitted matrix unchanged")
    for n in (2, 3, 4, 5):
        for r in range(h.pick(8, 50)):
            @h.do("rcd", n=n, rep=r)
            def _():
                rng = h.rng("r", n, r)
                X = confounded(rng, n, 80)
                with oracle_tests(h.seed * 7919 + n * 100 + r, probs=None):
                    mod = lingam.RCD(MLHSICR=False, cor_alpha=.5 if r % 2 else .01).fit(X)
                B = np.array(mod.adjacency_matrix_)
                S = [set(int(v) for v in s) for s in mod.ancestors_list_]
                sweep(h, mod, [X], [B], lambda f, t: t in S[f])
    for n in (2, 3, 4, 5):
        for r in range(h.pick(8, 50)):
            @h.do("bottom-up", n=n, rep=r)
            def _():
                rng = h.rng("b", n, r)
                X = confounded(rng, n, 80)
                with oracle_tests(h.seed * 104729 + n * 100 + r, levels=(0.0, 1e-3, .3, .9), probs=None):
                    mod = lingam.BottomUpParceLiNGAM(alpha=[.1, .02, .5][r % 3]).fit(X)
                B = np.array(mod.adjacency_matrix_)
                pos = {}
                for i, o in enumerate(mod.causal_order_):
                    for v in (o if hasattr(o, "__iter__") else [o]):
                        pos[int(v)] = i
                sweep(h, mod, [X], [B], lambda f, t: pos[f] > pos[t])
    for n in (2, 3, 4, 5):
        for r in range(h.pick(5, 30)):
            @h.do("multi-group", n=n, rep=r)
            def _():
                rng = h.rng("g", n, r)
                B, p = random_dag(rng, n, .8)
                k = 2 + r % 3
                Xs = [sem_data(rng, B * rng.uniform(.5, 2, B.shape) * rng.choice([0, 1, 1], size=B.shape), p, 100 + 37 * g, "exp") for g in range(k)]
                mod = lingam.MultiGroupDirectLiNGAM().fit(Xs)
                Bs = [np.array(b) for b in mod.adjacency_matrices_]
                pos = {int(v): i for i, v in enumerate(mod.causal_order_)}
                sweep(h, mod, Xs, Bs, lambda f, t: pos[f] > pos[t], group=True)
                other = [sem_data(rng, B, p, 50 + g, "exp") for g in range(k)]
                sweep(h, mod, other, Bs, lambda f, t: pos[f] > pos[t], group=True)
    for n in (2, 3, 4):
        for r in range(h.pick(6, 40)):
            @h.do("multi-group rcd", n=n, rep=r)
            def _():
                rng = h.rng("gr", n, r)
                k = 2 + r % 2
                Xs = [confounded(rng, n, 60 + 10 * g) for g in range(k)]
                with oracle_tests(h.seed * 1299709 + n * 100 + r):
                    mod = lingam.MultiGroupRCD(cor_alpha=.5 if r % 2 else .01).fit(Xs)
                Bs = [np.array(b) for b in mod.adjacency_matrices_]
                S = [set(int(v) for v in s) for s in mod.ancestors_list_]
                sweep(h, mod, Xs, Bs, lambda f, t: t in S[f], group=True)


if __name__ == "__main__":
    main("C13", run)
