"""C03: path enumeration and total effects against exhaustive enumeration of simple paths."""
import itertools

import numpy as np

from lingam.utils import calculate_total_effect, find_all_paths
from rt.base import *


def edges_of(A, thr):
    n = len(A)
    return {(j, i) for i in range(n) for j in range(n) if not np.isnan(A[i, j]) and abs(A[i, j]) > thr}


def oracle(A, s, t, thr):
    """None if a cycle is reachable from s without passing through t, else {path: effect}"""
    n = len(A)
    E = edges_of(A, thr)
    reach, todo = {s}, [s]
    while todo:
        u = todo.pop()
        if u == t:
            continue
        for v in range(n):
            if (u, v) in E and v not in reach:
                reach.add(v)
                todo.append(v)
    # cycle among reachable nodes other than t
    R = reach - {t}
    color = {}

    def cyc(u):
        color[u] = 1
        for v in R:
            if (u, v) in E:
                if color.get(v) == 1 or (v not in color and cyc(v)):
                    return True
        color[u] = 2
        return False
    if any(u not in color and cyc(u) for u in R):
        return None
    out = {}
    mids = [v for v in range(n) if v not in (s, t)]
    for k in range(len(mids) + 1):
        for mid in itertools.permutations(mids, k):
            p = (s,) + mid + (t,)
            if all((a, b) in E for a, b in zip(p, p[1:])):
                e = 1.0
                for a, b in zip(p, p[1:]):
                    e = e * A[b, a]
                out[p] = e
    return out


def weight(rng, tie):
    """tie: few levels, so that different paths have equal effects or cancel"""
    return rng.choice([-1, 1, .5, 2, -2.]) if tie else rng.choice([-1, 1]) * rng.uniform(.05, 2)


def check_matrix(h, A, s, t, thr=None):
    n = len(A)
    exp = oracle(A, s, t, thr or 0.0)
    A0 = A.copy()
    call = (lambda: find_all_paths(A, s, t)) if thr is None else (lambda: find_all_paths(A, s, t, thr))
    if exp is None:
        h.raises(ValueError, call, f"cycle reachable from {s} before {t}")
        if thr is None and n > 1:
            h.raises(ValueError, lambda: calculate_total_effect(A, s, t), "total effect refuses the cycle")
    else:
        paths, effects = call()
        got = [tuple(int(x) for x in p) for p in paths]
        h.check(sorted(got) == sorted(exp), "each path exactly once", A=A, s=s, t=t, got=got, expected=sorted(exp))
        h.check(len(effects) == len(got), "one effect per path")
        for p, e in zip(got, effects):
            h.check(np.isclose(e, exp[p], rtol=1e-9, atol=1e-300), "effect is the product of the weights", path=p, got=e, expected=exp[p])
        if thr is None and n > 1:
            te = calculate_total_effect(A, s, t)
            h.check(np.isclose(te, sum(exp.values()), rtol=1e-9, atol=1e-12), "total effect is the sum", got=te)
    h.check(np.array_equal(A, A0, equal_nan=True), "matrix unchanged")


def run(h):
    for n in (2, 3):
        cells = list(itertools.product(range(n), repeat=2))
        masks = range(2 ** len(cells))
        for mk in masks:
            @h.do(f"all graphs n={n}", mask=mk)
            def _():
                rng = h.rng("g", n, mk)
                A = np.zeros((n, n))
                for b, (i, j) in enumerate(cells):
                    if mk >> b & 1:
                        A[i, j] = weight(rng, mk % 2)
                for s, t in itertools.permutations(range(n), 2):
                    check_matrix(h, A, s, t)
    # all DAG-ish graphs without self loops, n = 4
    cells4 = [(i, j) for i in range(4) for j in range(4) if i != j]
    step = h.pick(7, 1)
    for lo in range(0, 4096, 64):
        @h.do("graphs n=4", lo=lo, step=step)
        def _():
            for mk in range(lo + (-lo % step), lo + 64, step):
                rng = h.rng("g4", mk)
                A = np.zeros((4, 4))
                for b, (i, j) in enumerate(cells4):
                    if mk >> b & 1:
                        A[i, j] = weight(rng, mk % 3 == 0)
                for s, t in itertools.permutations(range(4), 2):
                    check_matrix(h, A, s, t)
    # DAGs of 5..7 variables, NaN entries, thresholds that equal weights
    for n in (4, 5, 6, 7):
        for r in range(h.pick(25, 150)):
            for nan in (False, True):
                for thr in (None, 0.5, 1e-9):
                    @h.do("DAGs", n=n, rep=r, nan=nan, thr=thr)
                    def _():
                        rng = h.rng("dag", n, r, nan)
                        A, perm = random_dag(rng, n, [.3, .6, 1.0][r % 3], .05, 1.2)
                        if r % 4 == 3:
                            A = np.sign(A) * rng.choice([.5, 1, 2], size=A.shape)
                        A[rng.rand(n, n) < .1] *= 1e-3
                        for _k in range(3):
                            i, j = rng.randint(n, size=2)
                            if A[i, j] != 0:
                                A[i, j] = np.sign(A[i, j]) * 0.5
                        if nan:
                            for _k in range(3):
                                i, j = rng.randint(n, size=2)
                                A[i, j] = A[j, i] = np.nan
                        prs = list(itertools.permutations(range(n), 2))
                        for s, t in ([prs[i] for i in rng.choice(len(prs), 6, replace=False)] if n > 5 else prs):
                            check_matrix(h, A, s, t, thr)
    # cyclic graphs of 5 variables
    for r in range(h.pick(150, 1500)):
        @h.do("cyclic graphs n=5", rep=r)
        def _():
            rng = h.rng("cyc", r)
            A = (rng.rand(5, 5) < [.2, .35][r % 2]) * rng.uniform(-1, 1, (5, 5))
            for s, t in itertools.permutations(range(5), 2):
                check_matrix(h, A, s, t)
    # lagged (wide) matrices: only square blocks are graphs; integer matrices
    @h.do("integer matrix")
    def _():
        A = np.array([[0, 0, 0], [2, 0, 0], [3, -4, 0]])
        p, e = find_all_paths(A, 0, 2)
        h.check(sorted(zip(map(tuple, p), map(float, e))) == [((0, 1, 2), -8.0), ((0, 2), 3.0)], "integer weights", got=[p, e])
    # argument checks
    A = np.array([[0, 0, 0], [1.5, 0, 0], [0.5, -2.0, 0]])
    for s, t in ((0, 0), (2, 2), (-1, 1), (1, -1), (3, 0), (0, 3), (100, 1)):
        @h.do("bad indices", s=s, t=t)
        def _():
            h.raises((ValueError, TypeError), lambda: calculate_total_effect(A, s, t), f"indices {s},{t} refused")
    for shp in ((2, 3), (3, 2), (4, 3)):
        @h.do("not square", shape=shp)
        def _():
            h.raises(ValueError, lambda: calculate_total_effect(np.zeros(shp), 0, 1), "non-square matrix refused")
    for mask in itertools.product([True, False], repeat=4):
        for s, t in itertools.permutations(range(4), 2):
            @h.do("discrete variables", mask=mask, s=s, t=t)
            def _():
                D = np.zeros((4, 4))
                D[1, 0], D[2, 1], D[3, 0] = 1.5, -2.0, 0.7
                exp = oracle(D, s, t, 0.0)
                bad = any(not mask[v] for p in exp for v in p[1:])
                f = lambda: calculate_total_effect(D, s, t, is_continuous=list(mask))
                if bad:
                    h.raises(ValueError, f, "path through a discrete variable refused")
                else:
                    h.check(np.isclose(f(), sum(exp.values())), "total effect with continuous path")


if __name__ == "__main__":
    main("C03", run)
