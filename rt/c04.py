"""C04: bootstrap statistics against direct counting."""
import itertools
from collections import Counter

import numpy as np

import lingam
from lingam.bootstrap import BootstrapResult
from lingam.longitudinal_lingam import LongitudinalBootstrapResult
from lingam.var_lingam import VARBootstrapResult
from lingam.varma_lingam import VARMABootstrapResult
from rt.base import *
from rt.c03 import oracle


def gen(rng, S, n, cols=None, nan=True, dag=False):
    cols = cols or n
    levels = [0.0, 0.0, 0.0, 0.5, -0.5, 0.3, -1.2, 1e-8, 2.0]
    A = rng.choice(levels, size=(S, n, cols))
    if dag:
        for s in range(S):
            A[s, :, :n] = np.tril(A[s, :, :n], -1)
    if nan and rng.rand() < .6:
        for s in range(S):
            if rng.rand() < .5:
                i, j = rng.randint(n), rng.randint(cols)
                A[s, i, j] = np.nan
                if j < n:
                    A[s, j, i] = np.nan
    # repeat samples so that counts exceed one
    idx = rng.randint(S, size=S)
    return A[idx]


def dirs_of(am, thr):
    return [(j, i, (1 if am[i, j] > 0 else -1)) for i in range(am.shape[0]) for j in range(am.shape[1])
            if not np.isnan(am[i, j]) and abs(am[i, j]) > thr]


def check_cdc(h, cdc, mats, thr, split, top):
    cnt = Counter()
    for am in mats:
        for f, t, s in dirs_of(am, thr):
            cnt[(f, t, s) if split else (f, t)] += 1
    keys = set(cdc)
    h.check(keys == ({"from", "to", "count", "sign"} if split else {"from", "to", "count"}), "keys", got=keys)
    rows = list(zip(cdc["from"], cdc["to"], cdc["sign"])) if split else list(zip(cdc["from"], cdc["to"]))
    h.check(len({len(v) for v in cdc.values()}) == 1, "columns of equal length", got=cdc)
    h.check(len(set(rows)) == len(rows), "no duplicate direction", rows=rows)
    for r, c in zip(rows, cdc["count"]):
        h.check(cnt[tuple(r)] == c, "count equals direct counting", row=r, got=c, expected=cnt[tuple(r)], thr=thr)
    want = sorted(cnt.values(), reverse=True)
    want = want[:top] if top is not None else want
    h.check(list(cdc["count"]) == want, "complete, in descending order, truncated", got=cdc["count"], expected=want)


def check_dagc(h, dagc, mats, thr, split, top):
    cnt = Counter()
    for am in mats:
        d = dirs_of(am, thr)
        cnt[frozenset(d) if split else frozenset(x[:2] for x in d)] += 1
    seen = []
    for dag, c in zip(dagc["dag"], dagc["count"]):
        key = list(zip(dag["from"], dag["to"], [int(x) for x in dag["sign"]])) if split else list(zip(dag["from"], dag["to"]))
        h.check(len(dag["from"]) == len(dag["to"]) and len(set(key)) == len(key), "edge list well formed", dag=dag)
        if split:
            h.check(len(dag["sign"]) == len(dag["from"]), "one sign per edge")
        key = frozenset(key)
        h.check(cnt.get(key) == c, "graph count", got=c, expected=cnt.get(key), dag=dag)
        seen.append(key)
    h.check(len(set(seen)) == len(seen) and len(dagc["dag"]) == len(dagc["count"]), "no duplicate graph")
    want = sorted(cnt.values(), reverse=True)
    want = want[:top] if top is not None else want
    h.check(list(dagc["count"]) == want, "complete, descending, truncated", got=dagc["count"], expected=want)


def check_tce(h, ce, te, thr):
    S = len(te)
    exp = {}
    for i in range(te.shape[1]):
        for j in range(te.shape[2]):
            col = te[:, i, j]
            k = sum(1 for x in col if not np.isnan(x) and abs(x) > thr)
            if k:
                exp[(j, i)] = (np.median([x for x in col if not np.isnan(x) and abs(x) > 0]), k / S)
    rows = list(zip(ce["from"], ce["to"]))
    h.check(len(set(rows)) == len(rows) and set(rows) == set(exp), "exactly the pairs with an effect", got=rows, expected=sorted(exp))
    for r, e, p in zip(rows, ce["effect"], ce["probability"]):
        h.check(np.isclose(e, exp[r][0]), "median of the nonzero effects", pair=r, got=e, expected=exp[r][0])
        h.check(np.isclose(p, exp[r][1]), "probability", pair=r, got=p, expected=exp[r][1])
    h.check(all(a >= b for a, b in zip(ce["probability"], ce["probability"][1:])), "descending probability")


def check_paths(h, res, graphs, s, t, thr):
    per = {}
    for g in graphs:
        o = oracle(g, s, t, thr)
        for p, e in o.items():
            per.setdefault(p, []).append(e)
    got = [tuple(p) for p in res["path"]]
    h.check(len(set(got)) == len(got) and set(got) == set(per), "exactly the paths that occur", got=got, expected=sorted(per))
    h.check(len(res["effect"]) == len(got) == len(res["probability"]), "columns of equal length")
    for p, e, pr in zip(got, res["effect"], res["probability"]):
        h.check(np.isclose(e, np.median(per[p])), "median effect of the path", path=p, got=e, expected=np.median(per[p]))
        h.check(np.isclose(pr, len(per[p]) / len(graphs)), "path probability", path=p, got=pr, expected=len(per[p]) / len(graphs))
    h.check(all(a >= b for a, b in zip(res["probability"], res["probability"][1:])), "descending probability")


def unroll(am, lags):
    n = am.shape[0]
    M = np.zeros((n * (lags + 1),) * 2)
    for i in range(lags + 1):
        for j in range(i, lags + 1):
            M[n * i:n * (i + 1), n * j:n * (j + 1)] = am[:, n * (j - i):n * (j - i + 1)]
    return M


def unroll_t(am, from_t, to_t):
    T, L, n, _ = am.shape
    k = to_t - from_t + 1
    M = np.zeros((n * k, n * k))
    for a in range(k):
        for b in range(a + 1):
            if a - b < L:
                M[n * a:n * (a + 1), n * b:n * (b + 1)] = am[from_t + a, a - b]
    return M


THR = [None, 0.5, 0.3, 1e-9, 3.0]


def kwthr(t):
    return {} if t is None else {"min_causal_effect": t}


def run(h):
    R = h.pick(8, 60)
    for n in (2, 3, 4, 12):
        for r in range(R if n < 12 else 2):
            for S in (1, 2, 7, 30):
                @h.do("BootstrapResult", n=n, S=S, rep=r)
                def _():
                    rng = h.rng("br", n, S, r)
                    A, te = gen(rng, S, n), gen(rng, S, n)
                    A0, te0 = A.copy(), te.copy()
                    res = BootstrapResult(A, te)
                    for t in THR:
                        thr = t or 0.0
                        for split in (False, True):
                            for top in (None, 1, 3, np.int64(2), 10 ** 6):
                                check_cdc(h, res.get_causal_direction_counts(n_directions=top, split_by_causal_effect_sign=split, **kwthr(t)), A, thr, split, top)
                                check_dagc(h, res.get_directed_acyclic_graph_counts(n_dags=top, split_by_causal_effect_sign=split, **kwthr(t)), A, thr, split, top)
                        P = np.asarray(res.get_probabilities(**kwthr(t)))
                        with np.errstate(invalid="ignore"):
                            exp = np.mean(np.abs(A) > thr, axis=0)
                        h.check(P.shape == exp.shape and np.allclose(P, exp), "edge probabilities", got=P, expected=exp)
                        check_tce(h, res.get_total_causal_effects(**kwthr(t)), te, thr)
                    h.check(np.array_equal(A, A0, equal_nan=True) and np.array_equal(te, te0, equal_nan=True), "samples unchanged")
                    h.check(np.array_equal(res.adjacency_matrices_, A0, equal_nan=True) and np.array_equal(res.total_effects_, te0, equal_nan=True), "recorded samples reported")

    for n in (2, 3, 4, 5, 12):
        for r in range(R if n < 12 else R // 2):
            @h.do("paths", n=n, rep=r)
            def _():
                rng = h.rng("pa", n, r)
                S = [3, 20][r % 2]
                p = rng.permutation(n)
                if n < 12:
                    A = gen(rng, S, n, dag=True)[:, p][:, :, p]
                else:        # two-digit variable numbers
                    A = np.zeros((S, n, n))
                    q = rng.permutation([0, 1, 2, 10, 11]) if r else [1, 11, 10, 2, 0]
                    for s in range(S):
                        for a, b in itertools.combinations(q, 2):
                            A[s, b, a] = rng.choice([0, .5, -1.5, 2.0])
                A0 = A.copy()
                res = BootstrapResult(A, np.zeros_like(A))
                prs = list(itertools.permutations(range(n), 2)) if n < 12 else list(itertools.permutations([0, 1, 2, 10, 11], 2))
                for s, t in prs:
                    for th in (None, 0.4, 0.5):
                        if n == 12:
                            keep = [0, 1, 2, 10, 11]
                            out = res.get_paths(s, t, **kwthr(th))
                            sub = [a[np.ix_(keep, keep)] for a in A]
                            out = dict(out, path=[[keep.index(v) for v in q] for q in out["path"]])
                            check_paths(h, out, sub, keep.index(s), keep.index(t), th or 0.0)
                        else:
                            check_paths(h, res.get_paths(s, t, **kwthr(th)), A, s, t, th or 0.0)
                h.check(np.array_equal(A, A0, equal_nan=True), "samples unchanged")

    # lagged results
    for n, lags in ((2, 1), (2, 2), (3, 1)):
        for r in range(R):
            for kind in ("VAR", "VARMA"):
                @h.do("lagged", n=n, lags=lags, rep=r, kind=kind)
                def _():
                    rng = h.rng("lag", n, lags, r)
                    q = 1 if kind == "VARMA" else 0
                    S = 6
                    A = gen(rng, S, n, n * (lags + 1 + q), nan=False, dag=True)
                    te = gen(rng, S, n, n * (lags + 1), nan=False)
                    Al = [a.copy() for a in A]
                    res = VARBootstrapResult(Al, te) if kind == "VAR" else VARMABootstrapResult(Al, te, (lags, q))
                    for t in (None, 0.5):
                        thr = t or 0.0
                        for split in (False, True):
                            check_cdc(h, res.get_causal_direction_counts(split_by_causal_effect_sign=split, **kwthr(t)), A, thr, split, None)
                            check_dagc(h, res.get_directed_acyclic_graph_counts(n_dags=2, split_by_causal_effect_sign=split, **kwthr(t)), A, thr, split, 2)
                        P = res.get_probabilities(**kwthr(t))
                        exp = np.mean(np.abs(A) > thr, axis=0)
                        h.check(len(P) == lags + 1 + q and np.allclose(np.concatenate(P, axis=1), exp), "edge probabilities per lag", got=P, expected=exp)
                        check_tce(h, res.get_total_causal_effects(**kwthr(t)), te, thr)
                        for fl in range(lags + 1):
                            for tl in range(fl + 1):
                                for s, d in itertools.product(range(n), repeat=2):
                                    if fl == tl and s == d:
                                        h.raises(ValueError, lambda: res.get_paths(s, d, fl, tl), "same variable refused")
                                        continue
                                    out = res.get_paths(s, d, from_lag=fl, to_lag=tl, **kwthr(t))
                                    check_paths(h, out, [unroll(a, lags) for a in A], n * fl + s, n * tl + d, thr)
                    h.raises(ValueError, lambda: res.get_paths(0, 1, 0, 1), "from_lag before to_lag refused")
                    h.check(all(np.array_equal(x, y) for x, y in zip(Al, A)), "samples unchanged")

    # longitudinal
    for T, lags, n in ((3, 1, 2), (4, 2, 2), (3, 1, 3)):
        for r in range(R):
            @h.do("Longitudinal", T=T, lags=lags, n=n, rep=r)
            def _():
                rng = h.rng("lo", T, lags, n, r)
                S = 6
                A = np.stack([np.stack([np.stack([gen(rng, 1, n, nan=False, dag=(k == 0))[0] for k in range(lags + 1)])
                                        for _t in range(T)]) for _s in range(S)])[rng.randint(S, size=S)]
                A[:, :lags] = np.nan
                te = gen(rng, S, n * T, nan=False)
                A0, te0 = A.copy(), te.copy()
                res = LongitudinalBootstrapResult(T, A, te)
                for t in (None, 0.5, 5.0):
                    thr = t or 0.0
                    for split in (False, True):
                        for top in (None, 2):
                            cs = res.get_causal_direction_counts(n_directions=top, split_by_causal_effect_sign=split, **kwthr(t))
                            ds = res.get_directed_acyclic_graph_counts(n_dags=top, split_by_causal_effect_sign=split, **kwthr(t))
                            h.check(len(cs) == T and len(ds) == T, "one entry per time point")
                            for tp in range(T):
                                flat = [np.concatenate(list(a[tp]), axis=1) for a in A]
                                check_cdc(h, cs[tp], flat, thr, split, top)
                                check_dagc(h, ds[tp], flat, thr, split, top)
                    P = res.get_probabilities(**kwthr(t))
                    with np.errstate(invalid="ignore"):
                        exp = np.mean(np.abs(A) > thr, axis=0)
                    h.check(np.allclose(P, exp), "edge probabilities")
                    check_tce(h, res.get_total_causal_effects(**kwthr(t)), te, thr)
                    for ft in range(lags, T):
                        for tt in range(ft, T):
                            for s, d in itertools.product(range(n), repeat=2):
                                if ft == tt and s == d:
                                    h.raises(ValueError, lambda: res.get_paths(s, d, ft, tt), "same variable refused")
                                    continue
                                out = res.get_paths(s, d, ft, tt, **kwthr(t))
                                check_paths(h, out, [unroll_t(a, ft, tt) for a in A], s, n * (tt - ft) + d, thr)
                h.raises(ValueError, lambda: res.get_paths(0, 1, 2, 1), "to_t before from_t refused")
                h.check(np.array_equal(A, A0, equal_nan=True) and np.array_equal(te, te0), "samples unchanged")

    # refused arguments
    rng = h.rng("ref")
    objs = dict(plain=BootstrapResult(gen(rng, 3, 2), gen(rng, 3, 2)),
                var=VARBootstrapResult(list(gen(rng, 3, 2, 4, False)), gen(rng, 3, 2, 4, False)),
                varma=VARMABootstrapResult(list(gen(rng, 3, 2, 6, False)), gen(rng, 3, 2, 4, False), (1, 1)),
                longi=LongitudinalBootstrapResult(2, rng.normal(size=(3, 2, 2, 2, 2)), gen(rng, 3, 4)))
    for nm, o in objs.items():
        for bad in (0, -1, 0.0, -0.5, -1e-12):
            @h.do("refused thresholds", kind=nm, bad=bad)
            def _():
                for f in ("get_causal_direction_counts", "get_directed_acyclic_graph_counts", "get_probabilities", "get_total_causal_effects"):
                    h.raises(ValueError, lambda: getattr(o, f)(min_causal_effect=bad), f"{f}: threshold {bad} refused")
                if nm == "longi":
                    h.raises(ValueError, lambda: o.get_paths(0, 1, 0, 1, min_causal_effect=bad), "get_paths threshold refused")
                else:
                    h.raises(ValueError, lambda: o.get_paths(0, 1, min_causal_effect=bad), "get_paths threshold refused")
        for bad in (0, -1, 1.5, "3", 2.0, [1], np.int64(0), np.float64(2)):
            @h.do("refused list sizes", kind=nm, bad=repr(bad))
            def _():
                h.raises(ValueError, lambda: o.get_causal_direction_counts(n_directions=bad), f"n_directions={bad!r} refused")
                h.raises(ValueError, lambda: o.get_directed_acyclic_graph_counts(n_dags=bad), f"n_dags={bad!r} refused")


if __name__ == "__main__":
    main("C04", run)
