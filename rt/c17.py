"""C17: graph utilities agree with the graph."""
import re

import numpy as np
import pandas as pd

import lingam
import lingam.utils as ut
from rt.base import *


def graph(rng, n, r):
    """any matrix: cyclic, self loops, cancelling rows, NaN pairs, tiny values"""
    B = np.where(rng.rand(n, n) < [.2, .4, .7][r % 3], rng.choice([-1., 1.], size=(n, n)) * rng.uniform(.001, 2, (n, n)), 0)
    if r % 4 == 1:
        B = np.tril(B, -1)[np.ix_(*(2 * [rng.permutation(n)]))]
    if r % 5 == 2:
        for i in range(n):
            nz = [j for j in np.nonzero(B[i])[0] if j != i]
            if len(nz) > 1:
                B[i, nz[-1]] = -B[i, nz[:-1]].sum()
    if r % 5 == 3:
        for j in range(n):
            nz = [i for i in np.nonzero(B[:, j])[0] if i != j]
            if len(nz) > 1:
                B[nz[-1], j] = -B[nz[:-1], j].sum()
    if r % 3:
        np.fill_diagonal(B, 0)
    return B


EDGE = re.compile(r'^\t*"?([^"]*?)"? -> "?([^"]*?)"?( \[(.*)\])?$')


def parse(src):
    nodes, edges = [], []
    depth = 0
    for ln in src.splitlines():
        t = ln.strip()
        if t.endswith("{"):
            depth += 1
            continue
        if t == "}":
            depth -= 1
            continue
        m = EDGE.match(ln)
        if m and "->" in ln:
            edges.append((m.group(1), m.group(2), m.group(4) or ""))
        elif depth == 1 and t and not t.startswith(("rank", "graph", "node ", "edge ")) and "=" not in t.split("[")[0]:
            nodes.append(t.split(" [")[0].strip('"'))
    return nodes, edges


def attr(a, k):
    m = re.search(k + r'="?([^" \]]+)"?', a)
    return m.group(1) if m else None


def bfs(A, roots):
    """A[i, j]: edge j -> i"""
    d = {v: 0 for v in roots}
    cur = list(roots)
    while cur:
        nxt = []
        for v in cur:
            for i in range(len(A)):
                if A[i, v] and i not in d:
                    d[i] = d[v] + 1
                    nxt.append(i)
        cur = nxt
    return d


def run(h):
    for n in (1, 2, 3, 4, 5, 7):
        for r in range(h.pick(120, 600)):
            @h.do("sink and exogenous", n=n, rep=r)
            def _():
                rng = h.rng("s", n, r)
                B = graph(rng, n, r)
                if r % 7 == 6 and n > 1:
                    B[0, 1] = B[1, 0] = np.nan
                off = (B != 0) & ~np.eye(n, dtype=bool)
                sink = [i for i in range(n) if not off[:, i].any()]
                exo = [i for i in range(n) if not off[i].any()]
                h.check([int(v) for v in ut.get_sink_variables(B)] == sink, "sinks are the variables without outgoing edges", got=ut.get_sink_variables(B), expected=sink, B=B)
                h.check([int(v) for v in ut.get_exo_variables(B)] == exo, "exogenous variables have no incoming edges", got=ut.get_exo_variables(B), expected=exo, B=B)
    for n in (2, 3, 4, 5, 7):
        for r in range(h.pick(120, 600)):
            @h.do("distances", n=n, rep=r)
            def _():
                rng = h.rng("d", n, r)
                B = graph(rng, n, r)
                B = np.where(np.abs(B) < 1e-6, 0, B)
                if r % 2:
                    B[rng.randint(n)] = 0
                if r % 6 == 5:
                    i, j = rng.permutation(n)[:2]
                    B[i, j] = B[j, i] = np.nan
                A = np.nan_to_num(B, nan=0.) != 0
                roots = [i for i in range(n) if not A[i].any()]
                for mx in (None, 1, 2, n):
                    if not roots:
                        h.raises(ValueError, lambda: ut.calculate_distance_from_root_nodes(B, mx), "no root node")
                        continue
                    d = bfs(A, roots)
                    exp = {}
                    for v in range(n):
                        if v in d and (mx is None or d[v] <= mx):
                            exp.setdefault(d[v], []).append(v)
                    got = ut.calculate_distance_from_root_nodes(B.tolist() if r % 3 == 0 and not np.isnan(B).any() else B, mx)
                    got = {int(k): sorted(int(x) for x in v) for k, v in got.items()}
                    h.check(got == exp, "shortest distance from a variable without parents", got=got, expected=exp, B=B, max=mx)
                h.raises((ValueError, TypeError), lambda: ut.calculate_distance_from_root_nodes(B, 0), "maximum distance 0")
                h.raises(ValueError, lambda: ut.calculate_distance_from_root_nodes(B[:, :-1] if n > 2 else np.zeros((2, 3))), "not square")
    for n in (1, 2, 3, 4, 5):
        for r in range(h.pick(40, 300)):
            @h.do("dot graph", n=n, rep=r)
            def _():
                rng = h.rng("g", n, r)
                B = graph(rng, n, r)
                pairs = []
                if n > 1 and r % 3 == 1:
                    for _ in range(1 + r % 2):
                        i, j = rng.permutation(n)[:2]
                        B[i, j] = B[j, i] = np.nan
                for i in range(n):
                    for j in range(i):
                        if np.isnan(B[i, j]):
                            pairs.append({i, j})
                lim = [None, .5, 0.0, 1e-3][r % 4]
                labels = [None, [f"node {chr(97 + i)}" for i in range(n)], [f"L{n - i}" for i in range(n)]][r % 3]
                kw = {} if lim is None else {"lower_limit": lim}
                if labels:
                    kw["labels"] = labels
                if r % 5 == 4:
                    kw["detect_cycle"] = True
                names = labels or [f"x{i}" for i in range(n)]
                d = ut.make_dot(B.tolist() if r % 2 and not np.isnan(B).any() else B, **kw)
                nodes, edges = parse(d.source)
                lo = .01 if lim is None else lim
                exp = sorted((names[j], names[i], f"{B[i, j]:.2f}") for i in range(n) for j in range(n) if not np.isnan(B[i, j]) and abs(B[i, j]) > lo)
                directed = sorted((a, b, attr(x, "label")) for a, b, x in edges if attr(x, "dir") != "both")
                both = [frozenset((a, b)) for a, b, x in edges if attr(x, "dir") == "both"]
                h.check(nodes == list(names), "one node per variable", got=nodes, expected=names)
                h.check(directed == exp, "one directed edge per coefficient above the limit, with its value", got=directed, expected=exp, B=B)
                want = sorted(sorted(names[v] for v in p) for p in pairs)
                h.check(sorted(sorted(p) for p in both) == want, "NaN pairs drawn once as bidirected", got=[sorted(p) for p in both], expected=want)
                if n > 1:
                    h.raises(ValueError, lambda: ut.make_dot(B, labels=[f"z{i}" for i in range(n + 1)]), "too many labels")
                    h.raises(ValueError, lambda: ut.make_dot(B[:-1]), "not square")
                feats = list(range(n))[: 1 + r % n]
                co = [float(c) for c in rng.uniform(-1, 1, len(feats))]
                d = ut.make_dot(B, prediction_feature_indices=feats, prediction_coefs=co, **kw)
                _n, e2 = parse(d.source)
                pred = sorted((a, attr(x, "label")) for a, b, x in e2 if b == "Y(pred)")
                h.check(pred == sorted((names[f], f"{c:.2f}") for f, c in zip(feats, co) if abs(c) > lo), "prediction edges", got=pred)
                rest = sorted((a, b, attr(x, "label")) for a, b, x in e2 if b != "Y(pred)" and attr(x, "dir") != "both")
                h.check(rest == exp, "prediction leaves the graph as it is")
                if n > 1:
                    d = ut.make_dot(B, path=(0, n - 1), **kw)
                    rest = sorted((a, b, attr(x, "label")) for a, b, x in parse(d.source)[1] if attr(x, "dir") != "both")
                    h.check(rest == exp, "highlighting a path leaves the edges as they are")
    for n in (2, 3, 4, 6):
        for r in range(h.pick(10, 60)):
            @h.do("remove effect", n=n, rep=r)
            def _():
                rng = h.rng("r", n, r)
                X = make_data(rng, n, 50, "exp") * rng.uniform(.5, 3, n) + rng.uniform(-2, 2, n)
                if r % 3 == 2:
                    X = np.round(X * 3).astype(int)
                k = 1 + r % (n - 1) if n > 1 else 1
                rem = [int(v) for v in rng.permutation(n)[:k]]
                D = pd.DataFrame(X) if r % 2 else X
                Y = ut.remove_effect(D, rem)
                Z, co = ut.remove_effect(D, rem, return_coefs=True)
                X = np.asarray(X, float)
                h.check(np.shape(Y) == X.shape and np.array_equal(Y, Z), "same result with coefficients")
                h.check(np.array_equal(np.asarray(Y)[:, rem], X[:, rem]), "removed columns are unchanged")
                rest = [i for i in range(n) if i not in rem]
                h.check(sorted(int(v) for v in co) == rest, "coefficients of the remaining columns")
                C = X[:, rem] - X[:, rem].mean(0)
                for i in rest:
                    c = np.abs(C.T @ (Y[:, i] - Y[:, i].mean())) / len(X)
                    h.check(np.all(c < 1e-8 * (1 + np.abs(X).max() ** 2)), "remaining columns are uncorrelated with the removed ones", col=i, cov=c)
                    ref = np.linalg.lstsq(C, X[:, i] - X[:, i].mean(), rcond=None)[0]
                    h.check(np.allclose(co[i], ref, atol=1e-6), "coefficients of the regression", got=co[i], expected=ref)
                    h.check(np.allclose(Y[:, i] - Y[:, i].mean(), X[:, i] - X[:, i].mean() - C @ ref, atol=1e-6), "residuals of the regression")


if __name__ == "__main__":
    main("C17", run)
