"""Run-time contract harness: executes the real code of /repo and evaluates the contracts'
postconditions on concrete inputs.  Used (a) to look for a concrete failing input when a proof
obligation fails, (b) as the bounded check of functions outside the verifier's reach."""
import collections
import copy
import json
import os
import sys
import time
import traceback
import warnings

import numpy as np


class Stop(Exception):
    pass


class H:
    def __init__(self, prop, tier="quick", seed=1, budget=100.0, only=None, shard=(0, 1)):
        self.prop, self.tier, self.seed, self.budget, self.only = prop, tier, seed, budget, only
        self.t0 = time.time()
        self.shard, self.shards = shard
        self._n = 0
        self.times = {}
        self.n_checks = 0
        self.n_inputs = 0
        self.groups = {}
        self.violations = []
        self.skipped = []
        self._group = ""
        self._case = None

    @property
    def thorough(self):
        return self.tier == "thorough"

    def rng(self, *key):
        return np.random.RandomState(abs(hash_key(self.seed, *key)) % (2 ** 31))

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def left(self):
        return self.budget - (time.time() - self.t0)

    def do(self, group, **params):
        """decorator: run one concrete input now; an exception of the code under test is a violation"""
        def deco(fn):
            self._n += 1
            if self.only is not None:
                if not (self.only["group"] == group and self.only["params"] == jsonable(params)):
                    return fn
            elif self._n % self.shards != self.shard:
                return fn
            elif self.left() < 0:
                self.skipped.append(group)
                return fn
            self._group, self._case = group, params
            self.n_inputs += 1
            self.groups.setdefault(group, [0, 0])[0] += 1
            t = time.time()
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    np.random.seed(self.seed)
                    fn()
            except Stop:
                pass
            except Exception as e:
                self.fail(f"unexpected {type(e).__name__}: {e}", trace=traceback.format_exc(limit=-6))
            self.times[group] = self.times.get(group, 0) + time.time() - t
            return fn
        return deco

    def check(self, cond, what, **data):
        self.n_checks += 1
        self.groups.setdefault(self._group, [0, 0])[1] += 1
        if not bool(cond):
            self.fail(what, **data)
            raise Stop()

    def fail(self, what, **data):
        if len(self.violations) < 20:
            self.violations.append(dict(property=self.prop, group=self._group, params=jsonable(self._case),
                                        what=what, data=jsonable(data), seed=self.seed, tier=self.tier))

    def raises(self, etypes, fn, what):
        self.n_checks += 1
        self.groups.setdefault(self._group, [0, 0])[1] += 1
        try:
            fn()
        except etypes:
            return
        except Exception as e:
            self.fail(f"{what}: raised {type(e).__name__} ({e}) instead")
            raise Stop()
        self.fail(f"{what}: no error raised")
        raise Stop()

    def result(self):
        return dict(property=self.prop, tier=self.tier, seed=self.seed, checks=self.n_checks,
                    inputs=self.n_inputs, groups={k: dict(inputs=v[0], checks=v[1]) for k, v in self.groups.items()},
                    violations=self.violations, skipped=self.skipped,
                    times={k: round(v, 1) for k, v in self.times.items()}, wall_s=round(time.time() - self.t0, 1))


def hash_key(*key):
    import zlib
    return zlib.crc32(repr(key).encode())


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return x.tolist() if x.size <= 400 else f"array{x.shape}"
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)[:300]


# ------------------------------------------------------------------ data
def random_dag(rng, n, p=0.6, lo=0.4, hi=1.5, neg=True):
    """coefficient matrix of a DAG with a random order"""
    perm = rng.permutation(n)
    B = np.zeros((n, n))
    for a in range(n):
        for b in range(a):
            if rng.rand() < p:
                w = lo + (hi - lo) * rng.rand()
                B[perm[a], perm[b]] = w * (rng.choice([-1, 1]) if neg else 1)
    return B, list(perm)


def sem_data(rng, B, perm, m, noise="uniform"):
    n = len(B)
    if noise == "uniform":
        E = rng.uniform(-1, 1, (m, n))
    elif noise == "exp":
        E = rng.exponential(1.0, (m, n))
    elif noise == "laplace":
        E = rng.laplace(size=(m, n))
    elif noise == "gauss":
        E = rng.normal(size=(m, n))
    elif noise == "t":
        E = rng.standard_t(4, (m, n))
    else:
        E = rng.beta(.5, .5, (m, n))
    X = np.zeros((m, n))
    for i in perm:
        X[:, i] = X @ B[i] + E[:, i]
    return X


def make_data(rng, n, m, noise="uniform", p=0.6):
    B, perm = random_dag(rng, n, p)
    return sem_data(rng, B, perm, m, noise)


def is_perm(order, n):
    try:
        o = [int(x) for x in order]
    except Exception:
        return False
    return all(float(a) == b for a, b in zip(order, o)) and sorted(o) == list(range(n))


def respects(B, order):
    pos = {int(v): i for i, v in enumerate(order)}
    r, c = np.nonzero(np.nan_to_num(B, nan=1.0))
    return all(pos[int(j)] < pos[int(i)] for i, j in zip(r, c))


class oracle_tests:
    """replace the independence tests in every lingam module by a deterministic, symmetric function of the
    data it is given, so that a run explores another history of test outcomes (contract of the tests: any
    p-value in [0, 1], any F-correlation in [0, 1])"""

    def __init__(self, salt, levels=(0.0, 1e-4, 0.005, 0.02, 0.3, 0.6, 1.0), probs=None, stats=False, clip=0.02, joint=None):
        self.joint = joint      # probability of rejecting (pairs, joint tests); None: from levels
        self.clip = clip
        self.salt, self.levels, self.probs, self.stats = salt, levels, probs, stats
        self.calls = 0
        self.kinds, self.bws = set(), set()

    def _value(self, X, Y):
        import zlib
        self.calls += 1
        a = zlib.crc32(np.round(np.asarray(X, float), 9).tobytes())
        b = zlib.crc32(np.round(np.asarray(Y, float), 9).tobytes())
        r = np.random.RandomState(zlib.crc32(repr((min(a, b), max(a, b), self.salt)).encode()))
        if self.joint is not None:
            multi = max(np.ndim(v) and np.size(v) // max(1, len(v)) for v in (X, Y)) > 1
            return float(r.choice(self.levels[:2] if r.rand() < self.joint[1 if multi else 0] else self.levels[2:]))
        return float(r.choice(self.levels, p=self.probs))

    def __enter__(self):
        import lingam
        import lingam.tools

        def hsic_test_gamma(X, Y, bw_method="mdbs"):
            v = self._value(X, Y)
            self.kinds.add("hsic")
            self.bws.add(bw_method)
            return 1.0 - v, v

        def f_correlation(x, y):
            self.kinds.add("fcorr")
            return self._value(x, y)

        Pair = collections.namedtuple("Pair", "statistic pvalue")

        def pearsonr(x, y):
            v = self._value(x, y)
            return Pair(1 - v, v)

        def shapiro(x):
            v = self._value(x, x)
            return Pair(1 - v, min(v, self.clip))

        fns = [hsic_test_gamma, f_correlation] + ([pearsonr, shapiro] if self.stats else [])
        self.saved = []
        for nm, mod in list(sys.modules.items()):
            if nm == "lingam" or nm.startswith("lingam."):
                for f in fns:
                    if callable(getattr(mod, f.__name__, None)):
                        self.saved.append((mod, f.__name__, getattr(mod, f.__name__)))
                        setattr(mod, f.__name__, f)
        return self

    def __exit__(self, *a):
        for mod, nm, f in self.saved:
            setattr(mod, nm, f)


def recording(cls):
    """subclass that records a copy of the data of every fit and the results right after it"""
    class Rec(cls):
        def fit(self, X, *a, **k):
            if "_rt_log" not in self.__dict__:
                self._rt_log = []
            data = [np.array(x) for x in X] if isinstance(X, list) else np.array(X)
            out = super().fit(X, *a, **k)
            d = {"X": data}
            for nm in ("causal_order_", "adjacency_matrix_", "adjacency_matrices_", "ancestors_list_"):
                try:
                    d[nm] = copy.deepcopy(getattr(self, nm))
                except Exception:
                    pass
            self._rt_log.append(d)
            return out
    Rec.__name__ = cls.__name__
    return Rec


def total_effects(B):
    """sum over all directed paths of an acyclic matrix (NaN = no edge): sum of powers; None if cyclic"""
    A = np.nan_to_num(np.asarray(B, float), nan=0.0)
    n = len(A)
    if np.any(np.linalg.matrix_power((A != 0).astype(float), n)):
        return None
    T, P = np.zeros((n, n)), np.eye(n)
    for _ in range(n):
        P = P @ A
        T = T + P
    return T


def main(prop, run):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=0)
    ap.add_argument("--out", default="-")
    ap.add_argument("--replay", default=None)
    ap.add_argument("--shard", default="0/1")
    a = ap.parse_args()
    only = None
    if a.replay:
        with open(a.replay) as f:
            only = json.load(f)
        only = only.get("violation", only)
        a.tier, a.seed = only.get("tier", a.tier), only.get("seed", a.seed)
    budget = a.budget or (100 if a.tier == "quick" else 600)
    h = H(prop, a.tier, a.seed, budget, only, tuple(int(x) for x in a.shard.split("/")))
    import lingam
    repo = os.environ.get("VERIF_REPO", "/repo")
    assert os.path.realpath(lingam.__file__).startswith(os.path.realpath(repo) + os.sep), lingam.__file__
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        run(h)
    r = h.result()
    txt = json.dumps(r, indent=1)
    if a.out == "-":
        print(txt)
    else:
        with open(a.out, "w") as f:
            f.write(txt)
    sys.exit(1 if r["violations"] else 0)
