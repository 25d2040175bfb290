"""C02: prior knowledge is encoded as documented and never contradicted."""
import itertools

import numpy as np

import lingam
from lingam.utils import make_prior_knowledge
from rt.base import *


def expected_pk(n, exo, sink, paths, no_paths):
    pk = np.full((n, n), -1)
    for i in range(n):
        for j in range(n):
            if i == j:
                continue
            if (exo and i in exo) or (sink and j in sink):
                pk[i, j] = 0
            elif paths and any(tuple(p) == (j, i) for p in paths):
                pk[i, j] = 1
            elif no_paths and any(tuple(p) == (j, i) for p in no_paths):
                pk[i, j] = 0
    return pk


def before_pairs(pk):
    """(a, b): a must precede b"""
    n = len(pk)
    out = set()
    for i in range(n):
        for j in range(n):
            if i == j:
                continue
            if pk[i, j] == 1:
                out.add((j, i))
            if pk[i, j] == 0 and pk[j, i] != 0:
                out.add((i, j))
    return out


def acyclic(n, pairs):
    left = set(range(n))
    while left:
        free = [v for v in left if not any(a in left and b == v for a, b in pairs)]
        if not free:
            return False
        left -= set(free)
    return True


def contradiction(pk):
    n = len(pk)
    return any(pk[i, j] == 1 and pk[j, i] == 1 for i in range(n) for j in range(n))


def check_fit(h, mod, data, pk, soft, mats, n):
    try:
        mod.fit(data)
    except ValueError:
        if not soft and (contradiction(pk) or not acyclic(n, before_pairs(pk))):
            h.check(True, "")
            return
        if soft:
            return           # the soft heuristic may find no candidate; nothing is reported then
        raise
    if not soft:
        h.check(not contradiction(pk), "two required paths in opposite directions are rejected", pk=pk)
    As = mats(mod)
    for k, A in enumerate(As):
        A = np.asarray(A)
        h.check(np.all(A[(pk == 0)] == 0), "excluded path has no coefficient", pk=pk, A=A, order=mod.causal_order_)
    order = [int(v) for v in mod.causal_order_]
    h.check(is_perm(order, n), "order is a permutation", order=order)
    if not soft:
        pos = {v: i for i, v in enumerate(order)}
        for a, b in before_pairs(pk):
            h.check(pos[a] < pos[b], f"{a} precedes {b} as prior knowledge says", pk=pk, order=order)


def run(h):
    # encoding
    n = 3
    pairs = [(i, j) for i in range(n) for j in range(n)]
    subs = [None, [], [0], [2], [0, 1], [0, 1, 2], [-0]]
    rng0 = h.rng("enc")
    for r in range(h.pick(400, 4000)):
        nn = int(rng0.randint(1, 6))
        prs = [(i, j) for i in range(nn) for j in range(nn)]

        def some(pool, kmax, none=.3):
            if rng0.rand() < none:
                return None
            k = rng0.randint(0, min(kmax, len(pool)) + 1)
            return [pool[i] for i in rng0.choice(len(pool), k, replace=bool(rng0.rand() < .3))] if k else []
        exo, sink = some(list(range(nn)), 2), some(list(range(nn)), 2)
        ps, nps = some(prs, 4), some(prs, 4)

        @h.do("make_prior_knowledge", n=nn, exo=exo, sink=sink, paths=ps, no_paths=nps)
        def _():
            kw = {}
            if exo is not None:
                kw["exogenous_variables"] = list(exo)
            if sink is not None:
                kw["sink_variables"] = list(sink)
            if ps is not None:
                kw["paths"] = [list(p) for p in ps]
            if nps is not None:
                kw["no_paths"] = [tuple(p) for p in nps]
            got = make_prior_knowledge(nn, **kw)
            h.check(np.array_equal(got, expected_pk(nn, exo, sink, ps, nps)), "encoding", got=got)
    for p, q in itertools.product(pairs, pairs):
        @h.do("make_prior_knowledge pairs", path=p, no_path=q)
        def _():
            got = make_prior_knowledge(3, paths=[p], no_paths=[q])
            h.check(np.array_equal(got, expected_pk(3, None, None, [p], [q])), "encoding", got=got)

    # wrong shapes
    for cls in ("DirectLiNGAM", "MultiGroupDirectLiNGAM"):
        for shape in ((2, 2), (4, 4), (3, 2), (2, 3), (3, 4), (4, 3)):
            for soft in (False, True):
                @h.do("wrong shape", cls=cls, shape=shape, soft=soft)
                def _():
                    rng = h.rng("ws")
                    X = make_data(rng, 3, 40)
                    mod = getattr(lingam, cls)(prior_knowledge=np.full(shape, -1), apply_prior_knowledge_softly=soft)
                    h.raises(ValueError, lambda: mod.fit([X, X.copy()] if cls.startswith("Multi") else X),
                             "prior knowledge of the wrong shape is rejected")

    mgm = lambda mod: mod.adjacency_matrices_
    onem = lambda mod: [mod.adjacency_matrix_]
    # all matrices of 2 and 3 variables
    for n in (2, 3):
        cells = [(i, j) for i in range(n) for j in range(n) if i != j]
        for t, vals in enumerate(itertools.product((-1, 0, 1), repeat=len(cells))):
            for soft in (False, True):
                @h.do(f"DirectLiNGAM all prior knowledge n={n}", vals=vals, soft=soft)
                def _():
                    pk = np.full((n, n), -1)
                    for (i, j), v in zip(cells, vals):
                        pk[i, j] = v
                    rng = h.rng("apk", n, t)
                    X = make_data(rng, n, 30, p=1.0)
                    mod = lingam.DirectLiNGAM(prior_knowledge=pk, apply_prior_knowledge_softly=soft)
                    check_fit(h, mod, X, pk, soft, onem, n)
                if n == 2 or (h.thorough or t % 6 == 0):
                    @h.do(f"MultiGroup all prior knowledge n={n}", vals=vals, soft=soft)
                    def _():
                        pk = np.full((n, n), -1)
                        for (i, j), v in zip(cells, vals):
                            pk[i, j] = v
                        rng = h.rng("apkm", n, t)
                        B, p = random_dag(rng, n, 1.0)
                        Xs = [sem_data(rng, B, p, 30) for _ in range(2)]
                        mod = lingam.MultiGroupDirectLiNGAM(prior_knowledge=pk, apply_prior_knowledge_softly=soft)
                        check_fit(h, mod, Xs, pk, soft, mgm, n)
    # random larger, consistent with a DAG order, against the data's direction
    for n in (4, 5, 6):
        for r in range(h.pick(60, 400)):
            for kind in ("direct", "kernel", "multi"):
                if kind == "kernel" and (n > 4 or r % 4):
                    continue
                for soft in (False, True):
                    @h.do("random prior knowledge", n=n, rep=r, kind=kind, soft=soft)
                    def _():
                        rng = h.rng("rpk", n, r)
                        perm = rng.permutation(n)
                        pk = np.full((n, n), -1)
                        for a in range(n):
                            for b in range(a):
                                i, j = perm[a], perm[b]       # j before i
                                u = rng.rand()
                                if u < .25:
                                    pk[i, j] = 1
                                elif u < .45:
                                    pk[j, i] = 0
                                elif u < .6:
                                    pk[i, j] = pk[j, i] = 0
                                elif u < .7:
                                    pk[i, j], pk[j, i] = 1, 0
                        if r % 3 == 0:
                            np.fill_diagonal(pk, 0)
                        B, p = random_dag(rng, n, .9)
                        if kind == "multi":
                            Xs = [sem_data(rng, B, p, 40) for _ in range(3)]
                            mod = lingam.MultiGroupDirectLiNGAM(prior_knowledge=pk, apply_prior_knowledge_softly=soft)
                            check_fit(h, mod, Xs, pk, soft, mgm, n)
                        else:
                            X = sem_data(rng, B, p, 40 if kind == "direct" else 25)
                            mod = lingam.DirectLiNGAM(prior_knowledge=pk, apply_prior_knowledge_softly=soft,
                                                      measure="kernel" if kind == "kernel" else "pwling")
                            check_fit(h, mod, X, pk, soft, onem, n)
                            # a second fit of the same object honours it again
                            X2 = make_data(rng, n, 30)
                            check_fit(h, mod, X2, pk, soft, onem, n)

    # every single pair, end to end through the builder
    for n in (2, 3, 4):
        for i, j in itertools.permutations(range(n), 2):
            for what in ("paths", "no_paths", "exogenous_variables", "sink_variables"):
                @h.do("builder to fit", n=n, i=i, j=j, what=what)
                def _():
                    kw = {what: [(i, j)]} if "paths" in what else {what: [i]}
                    pk = make_prior_knowledge(n, **kw)
                    for r in range(3):
                        X = make_data(h.rng("b2f", n, i, j, r), n, 40, p=1.0)
                        mod = lingam.DirectLiNGAM(prior_knowledge=pk).fit(X)
                        order = list(mod.causal_order_)
                        A = mod.adjacency_matrix_
                        if what == "paths":
                            h.check(order.index(i) < order.index(j), "required path respected", order=order)
                        elif what == "no_paths":
                            h.check(A[j, i] == 0 and order.index(j) < order.index(i), "excluded path respected", order=order)
                        elif what == "exogenous_variables":
                            h.check(np.all(A[i] == 0), "exogenous variable has no parents", A=A)
                        else:
                            h.check(np.all(A[:, i] == 0), "sink variable has no children", A=A)


if __name__ == "__main__":
    main("C02", run)
