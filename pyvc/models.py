"""Models of Python builtins, NumPy and the external libraries.

Anything not modelled returns an Opaque value (arbitrary result); the only thing assumed
about it is that it does not modify its arguments.  Every such name is logged."""
import ast
import os

import z3

from .values import *
from .interp import RaiseEx, _root, _same_term, elem_value

BUILTINS = {
    "len", "range", "enumerate", "zip", "list", "tuple", "set", "dict", "sorted", "sum", "min", "max",
    "abs", "int", "float", "bool", "str", "isinstance", "hasattr", "print", "map", "filter", "any", "all",
    "reversed", "round", "type", "callable", "getattr", "setattr", "repr", "frozenset", "id", "iter", "next",
    "ValueError", "TypeError", "Exception", "KeyError", "IndexError", "AttributeError", "RuntimeError",
    "NotImplementedError", "ZeroDivisionError", "AssertionError", "StopIteration", "object", "slice",
    "super", "property", "staticmethod", "pow", "divmod", "issubclass", "UserWarning", "NameError",
    "ArithmeticError", "LookupError", "OSError", "ImportError", "Warning", "RuntimeWarning", "FutureWarning",
}
NUMPY = ("numpy", "np")

FADD = z3.Function("fadd", R, R, R)
FSUB = z3.Function("fsub", R, R, R)
FMUL = z3.Function("fmul", R, R, R)
FDIV = z3.Function("fdiv", R, R, R)
FPOW = z3.Function("fpow", R, R, R)
FDIVN = z3.Function("fdivnan", R, R, BS)


def fop(op, a, b):
    """any other float operation: an uninterpreted function of its operands"""
    a, b, nm = to_fl(a), to_fl(b), type(op).__name__.lower()
    return Fl(z3.Function("fop_" + nm, R, R, R)(a.v, b.v), Or(a.nan, b.nan, z3.Function("fopnan_" + nm, R, R, BS)(a.v, b.v)))


def iop(op, a, b):
    return z3.Function("iop_" + op, I, I, I)(as_int(a), as_int(b))


PURE = [False]    # inside an elementwise operation: no forks
EXACT = [False]   # real arithmetic instead of uninterpreted float operations


# ====================================================================== basics
def ext_attr(ex, q):
    q = q.replace("np.", "numpy.") if q.startswith("np.") else q
    if q in ("numpy.nan", "numpy.NaN", "math.nan"):
        return Fl(z3.RealVal(0), True)
    if q in ("numpy.inf", "math.inf", "numpy.Inf"):
        return Fl(z3.Real("INF"))
    if q == "numpy.newaxis":
        return None
    if q in ("numpy.pi", "numpy.e"):
        return Fl(z3.RealVal(3 if q.endswith("pi") else 2))if False else ex.ffl("const")
    return ExtV(q)


def isnum(v):
    return is_int(v) or isinstance(v, (Fl, float)) or is_bool(v)


def tosc(v):
    return v


def farith(op, a, b):
    a, b = to_fl(a), to_fl(b)
    nan = Or(a.nan, b.nan)
    if EXACT[0] and isinstance(op, (ast.Add, ast.Sub, ast.Mult)):
        v = {ast.Add: lambda: a.v + b.v, ast.Sub: lambda: a.v - b.v, ast.Mult: lambda: a.v * b.v}[type(op)]()
        return Fl(v, nan)
    if isinstance(op, ast.Add):
        return Fl(FADD(a.v, b.v), nan)
    if isinstance(op, ast.Sub):
        return Fl(FSUB(a.v, b.v), nan)
    if isinstance(op, ast.Mult):
        return Fl(FMUL(a.v, b.v), nan)
    if isinstance(op, ast.Div):
        return None
    return None


def binop(ex, op, a, b):
    a, b = ex.deref(a), ex.deref(b)
    if isinstance(a, Opt) or isinstance(b, Opt):
        if isinstance(a, Opt):
            if ex.branch(a.isnone):
                raise RaiseEx("TypeError", True)
            a = ex.deref(a.val)
        if isinstance(b, Opt):
            if ex.branch(b.isnone):
                raise RaiseEx("TypeError", True)
            b = ex.deref(b.val)
    if isinstance(a, SetV) and isinstance(b, SetV):
        return ex.new(set_op(ex, op, a, b))
    if isinstance(op, ast.BitOr) and is_bool(a) and is_bool(b):
        return Or(a, b)
    if isinstance(op, ast.BitAnd) and is_bool(a) and is_bool(b):
        return And(a, b)
    if isinstance(op, ast.BitXor) and is_bool(a) and is_bool(b):
        return Not(Eq(as_bool(a), as_bool(b)))
    if isinstance(a, tuple) and isinstance(b, tuple) and isinstance(op, ast.Add):
        return a + b
    if isinstance(a, SeqV) and isinstance(b, SeqV) and a.kind == b.kind and a.kind in ("list", "tuple"):
        if isinstance(op, ast.Add):
            r = concat(ex, a, b)
            return ex.new(r) if a.kind == "list" else r
    if isinstance(a, SeqV) and a.kind == "list" and is_int(b) and isinstance(op, ast.Mult):
        return list_repeat(ex, a, b)
    if isinstance(b, SeqV) and b.kind == "list" and is_int(a) and isinstance(op, ast.Mult):
        return list_repeat(ex, b, a)
    if isinstance(a, str) or isinstance(b, str):
        if isinstance(a, str) and isinstance(b, str) and isinstance(op, ast.Add):
            return a + b
        return Opaque("str")
    # arrays elementwise
    if isinstance(a, (ArrV, SeqV)) or isinstance(b, (ArrV, SeqV)):
        if isinstance(op, ast.MatMult):
            return np_dot(ex, [a, b], {})
        if isinstance(op, ast.Add) and not EXACT[0]:
            add_axiom(ex)
        return elementwise(ex, lambda x, y: pure(ex, op, x, y), a, b)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Opaque("arith")
    if is_bool(a) and isnum(b):
        a = If(a, 1, 0)
    if is_bool(b) and isnum(a):
        b = If(b, 1, 0)
    if is_int(a) and is_int(b):
        if isinstance(op, ast.Add):
            return a + b
        if isinstance(op, ast.Sub):
            return a - b
        if isinstance(op, ast.Mult):
            return a * b
        if isinstance(op, ast.FloorDiv):
            if isinstance(b, int) and b > 0:
                return a // b if isinstance(a, int) else a / b
            return iop("floordiv", a, b)
        if isinstance(op, ast.Mod):
            if isinstance(b, int) and b > 0:
                return a % b
            return iop("mod", a, b)
        if isinstance(op, ast.Pow):
            if isinstance(a, int) and isinstance(b, int) and b >= 0:
                return a ** b
            return iop("pow", a, b) if not isinstance(b, int) or b >= 0 else fop(op, a, b)
        if isinstance(op, ast.Div):
            if isinstance(a, int) and isinstance(b, int) and b != 0:
                return a / b
            if is_term(b) and not PURE[0] and ex.branch(Eq(b, 0)):
                raise RaiseEx("ZeroDivisionError", True)
            if EXACT[0]:
                return Fl(to_fl(a).v / to_fl(b).v)
            f = FDIV(to_fl(a).v, to_fl(b).v)
            return Fl(f, FDIVN(to_fl(a).v, to_fl(b).v) if PURE[0] else False)
    if isnum(a) and isnum(b):
        if isinstance(a, float) and isinstance(b, (int, float)) or isinstance(b, float) and isinstance(a, int):
            try:
                if isinstance(op, ast.Add):
                    return a + b
                if isinstance(op, ast.Sub):
                    return a - b
                if isinstance(op, ast.Mult):
                    return a * b
                if isinstance(op, ast.Div):
                    return a / b
                if isinstance(op, ast.Pow):
                    return a ** b
            except Exception:
                return Opaque("arith")
        r = farith(op, a, b)
        if r is not None:
            return r
        if isinstance(op, ast.Div):
            if EXACT[0]:
                return Fl(to_fl(a).v / to_fl(b).v, Or(to_fl(a).nan, to_fl(b).nan, Eq(to_fl(b).v, z3.RealVal(0))))
            f = FDIVN(to_fl(a).v, to_fl(b).v)
            return Fl(FDIV(to_fl(a).v, to_fl(b).v), Or(to_fl(a).nan, to_fl(b).nan, f))
        return fop(op, a, b)
    return Opaque("binop")


def pure(ex, op, x, y):
    old, PURE[0] = PURE[0], True
    try:
        return binop(ex, op, x, y)
    finally:
        PURE[0] = old


def add_axiom(ex):
    x, y = z3.Reals("ax ay")
    ax = z3.ForAll([x, y], z3.And(z3.Implies(y == 0, FADD(x, y) == x), z3.Implies(x == 0, FADD(x, y) == y)), patterns=[FADD(x, y)])
    if not any(f.eq(ax) for f in ex.pc):
        ex.assume(ax)


def unop(ex, op, v):
    v = ex.deref(v)
    if isinstance(op, ast.USub):
        if is_int(v):
            return -v
        if isinstance(v, float):
            return -v
        if isinstance(v, Fl):
            return Fl(-v.v, v.nan)
        if isinstance(v, (ArrV, SeqV)):
            return map1(ex, lambda x: unop(ex, op, x), v)
        return Opaque("neg")
    if isinstance(op, ast.UAdd):
        return v
    if isinstance(op, ast.Invert):
        if is_bool(v):
            return Not(v)
        if isinstance(v, SeqV) and v.ety == "bool":
            pr = None
            if v.pred is not None:
                b, f = v.pred
                pr = (b, lambda x: Not(f(x)))
            return ex.new(SeqV(v.n, lambda i: Not(v.get(i)), v.kind, "bool", pred=pr))
        if isinstance(v, ArrV) and v.dtype == "bool":
            return ex.new(ArrV(v.shape, lambda *i: Not(v.get(*i)), "bool"))
        return Opaque("inv")
    return Opaque("unop")


def map1(ex, f, v, dtype=None):
    if isinstance(v, SeqV):
        if v.ety in ("opaque", None, "str") or isinstance(v.ety, tuple):
            return Opaque("map")
        if v.ety and dtype is None:
            dtype = ety_of(ex.deref(f(v.get(z3.Int("probe!0")))))
        if dtype == "opaque":
            return Opaque("map")
        s = SeqV(v.n, lambda i: f(v.get(i)), "arr", dtype)
        return ex.new(ex.with_mem(s) if dtype == "int" else s)
    if isinstance(v, ArrV):
        if v.dtype == "opaque":
            return Opaque("map")
        if dtype is None:
            dtype = ety_of(ex.deref(f(v.get(*[z3.Int("probe!0")] * v.ndim))))
        if dtype == "opaque":
            return Opaque("map")
        return ex.new(ArrV(v.shape, lambda *i: f(v.get(*i)), dtype))
    return f(v)


def elementwise(ex, f, a, b, dtype=None):
    """broadcasting elementwise operation (array with scalar, or equal ndim, or trailing axes)"""
    def nd(x):
        if isinstance(x, ArrV):
            return x.ndim
        if isinstance(x, SeqV):
            return 1
        return 0
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Opaque("ew")
    for x in (a, b):
        if isinstance(x, SeqV) and (x.ety in ("opaque", "str", None) or isinstance(x.ety, tuple)):
            return Opaque("ew")
        if isinstance(x, ArrV) and x.dtype == "opaque":
            return Opaque("ew")
        if isinstance(x, (tuple, DictV, ObjV, SetV, str)) or x is None:
            return Opaque("ew")
    na, nb = nd(a), nd(b)
    n = max(na, nb)

    def shape(x):
        return x.shape if isinstance(x, ArrV) else ((x.n,) if isinstance(x, SeqV) else ())
    sa, sb = shape(a), shape(b)
    sh = []
    bc = {0: [False] * n, 1: [False] * n}
    for d in range(n):
        ia, ib = d - (n - na), d - (n - nb)
        xa = sa[ia] if ia >= 0 else None
        xb = sb[ib] if ib >= 0 else None
        if xa is None:
            sh.append(xb)
        elif xb is None:
            sh.append(xa)
        elif isinstance(xa, int) and xa == 1:
            bc[0][d] = True
            sh.append(xb)
        elif isinstance(xb, int) and xb == 1:
            bc[1][d] = True
            sh.append(xa)
        elif _same_term(xa, xb):
            sh.append(xa)
        elif n > 0 and na == nb or True:
            # numpy raises unless the sizes agree (or one is 1): not modelled precisely
            if _known(ex, Eq(xa, xb)) or ex.branch(Eq(xa, xb)):
                sh.append(xa)
            else:
                return Opaque("broadcast")

    def at(x, which, idx):
        k = nd(x)
        if k == 0:
            return x
        ii = [0 if bc[which][d] else idx[d] for d in range(n)][n - k:]
        return x.get(*ii)

    probe = [z3.Int("probe!0")] * n
    pv = ex.deref(f(at(a, 0, probe), at(b, 1, probe)))
    dt = dtype or ety_of(pv)
    if dt not in ("int", "float", "bool"):
        return Opaque("ew")
    g = lambda *i: ex.deref(f(at(a, 0, i), at(b, 1, i)))
    if n == 1:
        pr = None
        if dt == "bool":
            if isinstance(a, SeqV) and nb == 0 and a.mem is not None:
                pr = (a, lambda x: f(x, b))
            elif isinstance(b, SeqV) and na == 0 and b.mem is not None:
                pr = (b, lambda x: f(a, x))
            elif isinstance(a, SeqV) and isinstance(b, SeqV) and a.pred and b.pred and a.pred[0] is b.pred[0]:
                pa, pb = a.pred[1], b.pred[1]
                pr = (a.pred[0], lambda x: f(pa(x), pb(x)))
        s = SeqV(sh[0], lambda i: g(i), "arr", dt, pred=pr)
        if pr is None and dt == "bool":
            for x in (a, b):
                if isinstance(x, SeqV) and x.src is not None:
                    s.src = x.src
        for x, y_is_const, g1 in ((a, nb == 0, lambda x: f(x, b)), (b, na == 0, lambda x: f(a, x))):
            if dt == "bool" and isinstance(x, SeqV) and y_is_const and x.src is not None:
                if x.src[0] == "rowfn":
                    s.src = ("rows", x.src[1], lambda p, q, rc=x.src[2], g1=g1: ex.deref(g1(rc(p, q))))
                else:
                    s.src = ("col", x.src, lambda v, g1=g1: ex.deref(g1(v)))
                break
        return ex.new(ex.with_mem(s) if dt == "int" else s)
    return ex.new(ArrV(sh, g, dt))


VEC = z3.DeclareSort("Vector")
DOT = z3.Function("DOT", VEC, VEC, R)
DOTNAN = z3.Function("DOTNAN", VEC, VEC, BS)
_lam = [0]
_lifted = {}


def lam(f, n, nd=1):
    """The vector f(0), ..., f(n-1), lambda-lifted: its entries' terms with every maximal subterm free of the
    index abstracted name a function, applied to those subterms and to n.  Equal entry terms with equal parameters are
    equal vectors; nothing else is known about them (see ext_lemma for extensionality)."""
    vs = [z3.Int(f"lam!{_lam[0] + k}") for k in range(nd)]
    _lam[0] += nd
    try:
        x = to_fl(f(*vs))
    finally:
        _lam[0] -= nd
    body, nbody = x.v, as_bool(x.nan)
    bound = {v.get_id() for v in vs}
    has, params, out = {}, [], []

    def mentions(t):
        i = t.get_id()
        if i not in has:
            if z3.is_quantifier(t):
                has[i] = mentions(t.body())
            else:
                has[i] = i in bound or any([mentions(c) for c in t.children()])
        return has[i]

    def param(t):
        for k, q in enumerate(params):
            if q.eq(t):
                return f"?{k}"
        params.append(t)
        return f"?{len(params) - 1}"

    names = {v.get_id(): f"#{i}" for i, v in enumerate(vs)}

    def consts(t, acc, seen):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            consts(t.body(), acc, seen)
        elif z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc.append(t)
        else:
            for c in t.children():
                consts(c, acc, seen)

    def walk(t):
        if t.get_id() in names:
            return names[t.get_id()]
        if not mentions(t):
            return param(t)
        if z3.is_quantifier(t):
            acc = []
            consts(t, acc, set())
            sub = [(c, z3.Const(names[c.get_id()] if c.get_id() in names else param(c), c.sort())) for c in acc]
            return z3.substitute(t, *sub).sexpr()
        return "(" + " ".join([t.decl().name() + ":" + ",".join(str(p) for p in t.decl().params())] + [walk(c) for c in t.children()]) + ")"

    t1, t2 = walk(body), walk(nbody)
    params += [as_int(x) for x in (n if isinstance(n, tuple) else (n,))]
    key = (nd, t1, t2, tuple(str(p.sort()) for p in params))
    if key not in _lifted:
        k = len(_lifted)
        _lifted[key] = z3.Function(f"vec{k}", *[p.sort() for p in params], VEC)
    return _lifted[key](*params)


PRED = z3.Function("prediction", VEC, VEC, VEC, I, R)
PREDN = z3.Function("prediction_nan", VEC, VEC, VEC, I, BS)


def prediction(X, y, A):
    """entry r of the prediction at the rows of A of the least-squares regression of y on the columns of X"""
    x, v, a = lam(X.get, tuple(X.shape), 2), lam(y.get, y.n), lam(A.get, tuple(A.shape), 2)
    return lambda r: Fl(PRED(x, v, a, as_int(r)), PREDN(x, v, a, as_int(r)))


def mat_lemma(ex, A):
    """extensionality instances for a matrix against the matrices of the specification"""
    for k, fam in (ex.hints.matrix_families() if hasattr(ex.hints, "matrix_families") else []):
        ps = bvars(k) if k else []
        G = fam(*ps)
        r, c = bvars(2)
        a, b = to_fl(A.get(r, c)), to_fl(G.get(r, c))
        vg = lam(G.get, tuple(G.shape), 2)
        same = And(Eq(A.shape[0], G.shape[0]), Eq(A.shape[1], G.shape[1]), ForAll([r, c], Implies(
            And(Le(0, r), Lt(r, A.shape[0]), Le(0, c), Lt(c, A.shape[1])),
            And(as_bool(a.nan) == as_bool(b.nan), Implies(Not(a.nan), Eq(a.v, b.v))))))
        fl = z3.Implies(as_bool(same), lam(A.get, tuple(A.shape), 2) == vg)
        ex.assume(z3.ForAll(ps, fl, patterns=[vg]) if ps else fl)


LS = z3.Function("least_squares", VEC, I, VEC, VEC, R)


def lamset(p):
    """the set of integers with p, as a lambda-lifted term"""
    return lam(lambda q: Fl(z3.If(as_bool(p(q)), z3.RealVal(1), z3.RealVal(0))), ())


def least_squares(X, col, pred, y):
    """coefficient of column col in the regression of y on the columns {c: pred(c)} of X"""
    x, s, v = lam(X.get, tuple(X.shape), 2), lamset(pred), lam(y.get, y.n)
    return Fl(LS(x, as_int(col), s, v), False)


def fit_cols(ex, X, y):
    """coefficients of a least-squares fit on selected columns of a matrix: each is determined by the matrix, its
    column, the set of columns and y, provided no column is selected twice"""
    base, idx = X.src[1], X.src[2]
    if idx.mem is None:
        idx = ex.with_mem(idx)
    d = ex.fbool("distinct")
    ex.assume(d == as_bool(idx.is_distinct()))
    for k, fam in (ex.hints.regressor_sets() if hasattr(ex.hints, "regressor_sets") else []):
        ps = bvars(k) if k else []
        q, = bvars(1)
        sp = fam(*ps)
        fl = z3.Implies(as_bool(ForAll([q], as_bool(idx.has(q)) == as_bool(sp(q)))), lamset(idx.has) == lamset(sp))
        ex.assume(z3.ForAll(ps, fl, patterns=[lamset(sp)]) if ps else fl)
    dup = ex.family("coefdup", "float", 1)
    ex.assumptions.add("LinearRegression: a coefficient is determined by its column, the set of regressor columns, the "
                       "data and the target, whatever the order of the columns, and is not NaN (NaN data are refused)")

    def get(t):
        a, b = least_squares(base, idx.get(t), idx.has, y), to_fl(dup(t))
        return Fl(z3.If(d, a.v, b.v), z3.If(d, as_bool(a.nan), as_bool(b.nan)))
    return get


def ext_lemma(f, n, families):
    """extensionality instances: vector f equals a member of a family that agrees with it entry by entry.
    families: [(number of integer parameters, parameters -> (entries, length))]"""
    out = []
    for k, fam in families:
        ps = bvars(k) if k else []
        g, m = fam(*ps)
        r, = bvars(1)
        a, b = to_fl(f(r)), to_fl(g(r))
        vg = lam(g, m)
        same = And(Eq(n, m), ForAll([r], Implies(And(Le(0, r), Lt(r, n)), And(
            as_bool(a.nan) == as_bool(b.nan), Implies(Not(a.nan), Eq(a.v, b.v))))))
        fl = z3.Implies(as_bool(same), lam(f, n) == vg)
        out.append(z3.ForAll(ps, fl, patterns=[vg]) if ps else fl)
    return out


def dot(ex, f, g, n):
    """inner product of two indexed families: an uninterpreted symmetric function of the two vectors"""
    x, y = lam(f, n), lam(g, n)
    q, = bvars(1)
    fn, gn = to_fl(f(q)).nan, to_fl(g(q)).nan
    nan = False if fn is False and gn is False else DOTNAN(x, y)
    return Fl(DOT(x, y), nan)


def dot_axioms(ex):
    x, y = z3.Const("dx", VEC), z3.Const("dy", VEC)
    for ax in (z3.ForAll([x, y], DOT(x, y) == DOT(y, x), patterns=[DOT(x, y)]),
               z3.ForAll([x, y], DOTNAN(x, y) == DOTNAN(y, x), patterns=[DOTNAN(x, y)])):
        if not any(f.eq(ax) for f in ex.pc):
            ex.assume(ax)
    ex.assumptions.add("matrix products: entry (i, j) is an uninterpreted symmetric function of row i and column j")


def matmul(ex, a, b):
    num = ("float", "int")

    def ok(x):
        return (isinstance(x, ArrV) and x.ndim == 2 and x.dtype in num) or (isinstance(x, SeqV) and x.kind == "arr" and x.ety in num)
    if not (ok(a) and ok(b)):
        return Opaque("matmul")
    na = a.shape[-1] if isinstance(a, ArrV) else a.n
    nb = b.shape[0] if isinstance(b, ArrV) else b.n
    if not _same_term(na, nb) and not _known(ex, Eq(na, nb)) and not ex.branch(Eq(na, nb)):
        raise RaiseEx("ValueError", True)
    dot_axioms(ex)
    if isinstance(a, ArrV) and isinstance(b, ArrV):
        return ArrV((a.shape[0], b.shape[1]), lambda i, j: dot(ex, lambda k: a.get(i, k), lambda k: b.get(k, j), na), "float")
    if isinstance(a, ArrV):
        return SeqV(a.shape[0], lambda i: dot(ex, lambda k: a.get(i, k), b.get, na), "arr", "float")
    if isinstance(b, ArrV):
        return SeqV(b.shape[1], lambda j: dot(ex, a.get, lambda k: b.get(k, j), na), "arr", "float")
    return dot(ex, a.get, b.get, na)


def np_dot(ex, args, kw):
    r = matmul(ex, ex.deref(args[0]), ex.deref(args[1])) if len(args) == 2 else Opaque("dot")
    return ex.new(r) if isinstance(r, (ArrV, SeqV)) else r


def np_reshape(ex, args, kw):
    c = ex.deref(args[0])
    sh = args[1:] if len(args) > 2 else (args[1:] or [kw.get("newshape", kw.get("shape"))])
    if len(sh) == 1:
        v = ex.deref(sh[0])
        sh = list(v) if isinstance(v, tuple) else v.items if isinstance(v, SeqV) and v.items is not None else [v]
    if sh is None or kw.get("order"):
        return Opaque("reshape", alias_base(ex, args[0]))
    sh = [ex.deref(x) for x in sh]
    if isinstance(c, SeqV) and c.kind == "arr" and len(sh) == 2 and sh[1] == 1 and isinstance(sh[1], int):
        if isinstance(sh[0], int) and sh[0] == -1 or _same_term(sh[0], c.n) or (is_int(sh[0]) and _known(ex, Eq(sh[0], c.n))):
            r = ex.new(ArrV((c.n, 1), lambda i, j: c.get(i), c.ety))
            add_view(ex, r, args[0])
            return r
    if isinstance(c, ArrV) and c.ndim == 2 and len(sh) == 2 and all(_same_term(x, y) for x, y in zip(sh, c.shape)):
        return args[0]
    return Opaque("reshape", alias_base(ex, args[0]))


# ====================================================================== sets
def set_op(ex, op, a, b):
    if isinstance(op, ast.BitOr):
        return SetV(lambda v: Or(a.mem(v), b.mem(v)))
    if isinstance(op, ast.BitAnd):
        return SetV(lambda v: And(a.mem(v), b.mem(v)))
    if isinstance(op, ast.Sub):
        return SetV(lambda v: And(a.mem(v), Not(b.mem(v))))
    if isinstance(op, ast.BitXor):
        return SetV(lambda v: Not(Eq(as_bool(a.mem(v)), as_bool(b.mem(v)))))
    raise Unsupported("set op")


def set_of_items(ex, items):
    if not items:
        return SetV(lambda v: False, 0, [])
    if not all(is_int(x) for x in items):
        return Opaque("set")
    card = None
    if len(items) == 1:
        card = 1
    elif len(items) == 2:
        card = If(Eq(items[0], items[1]), 1, 2)
    return SetV(lambda v: Or(*[Eq(v, x) for x in items]), card, list(items))


def seq_to_set(ex, s):
    if s.items is not None and len(s.items) <= 4:
        return set_of_items(ex, s.items)
    if s.ety not in ("int", None):
        return Opaque("set")
    if s.mem is None:
        s = ex.with_mem(s)
    card = None
    if s.distinct is True:
        card = s.n
    elif s.distinct is not None:
        c = ex.fint("card")
        ex.assume(c >= 0)
        ex.assume(Le(c, s.n))
        ex.assume(Implies(Lt(0, s.n), c >= 1))
        ex.assume(Implies(s.distinct, Eq(c, s.n)))
        card = c
    return SetV(s.mem, card)


def to_set(ex, v):
    v = ex.deref(v)
    if isinstance(v, SetV):
        return v
    if isinstance(v, SeqV):
        return seq_to_set(ex, v)
    if isinstance(v, tuple):
        items = [ex.deref(x) for x in v]
        if all(is_int(x) for x in items):
            return set_of_items(ex, items)
        return Opaque("set")
    if isinstance(v, IterV):
        return Opaque("set")
    if isinstance(v, DictV):
        if v.cd is not None:
            if all(isinstance(k, int) for k in v.cd):
                return set_of_items(ex, list(v.cd))
            return Opaque("set")
        return SetV(v.has)
    return Opaque("set")


# ====================================================================== sequences
def to_seq(ex, v, kind="list"):
    v = ex.deref(v)
    if isinstance(v, SeqV):
        return v.with_kind(kind)
    if isinstance(v, tuple):
        return seq_items([ex.share(x) if isinstance(x, (Ref, ElemRef)) else x for x in v], kind)
    if isinstance(v, SetV):
        return ex.set_to_seq(v, kind)
    if isinstance(v, ArrV):
        return SeqV(v.shape[0], lambda i: elem_value(v, i), kind,
                    ("seq", "arr", v.dtype) if v.ndim == 2 else ("arr", v.ndim - 1, v.dtype))
    if isinstance(v, IterV):
        if v.items is not None:
            return seq_items([ex.deref(x) for x in v.items], kind)
        k = ex.fint("it")
        lim = int(k.decl().name().split("!")[-1])
        npc = len(ex.pc)
        x = v.elem(ex, k)
        facts = ex.pc[npc:]
        del ex.pc[npc:]
        x = ex.deref(x)
        # facts may mention element-fresh symbols: rebuild as a family
        return fam_seq(ex, v.n, x, facts, k, lim, kind)
    if isinstance(v, DictV):
        if v.cd is not None:
            return seq_items(list(v.cd), kind)
        return ex.set_to_seq(SetV(v.has), kind)
    if isinstance(v, Opaque):
        return SeqV(_opn(ex), lambda i: Opaque("el"), kind, "opaque")
    raise Unsupported("to_seq")


def _opn(ex):
    n = ex.fint("n")
    ex.assume(n >= 0)
    return n


def fam_seq(ex, n, x, facts, k, lim, kind):
    """sequence whose element at k is x; symbols created while building x become functions of k"""
    from .interp import _only_old
    from . import solver
    new = {}

    def collect(t):
        stack = [t]
        seen = set()
        while stack:
            e = stack.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_quantifier(e):
                stack.append(e.body())
                continue
            if z3.is_app(e):
                d = e.decl()
                if d.kind() == z3.Z3_OP_UNINTERPRETED:
                    tail = d.name().rsplit("!", 1)
                    if len(tail) == 2 and tail[1].isdigit() and int(tail[1]) > lim and not d.name().startswith("q!"):
                        new[d.name(), d.arity()] = d
                stack.extend(e.children())
    for f in facts:
        collect(f)
    def collectv(v, d=0):
        p = [z3.Int(f"probe!{d}{i}") for i in range(4)]
        if is_term(v):
            collect(v)
        elif isinstance(v, Fl):
            collectv(v.v), collectv(v.nan)
        elif isinstance(v, tuple):
            [collectv(y, d) for y in v]
        elif isinstance(v, SeqV):
            collectv(v.n), collectv(v.distinct)
            [collectv(y, d + 1) for y in v.items] if v.items is not None else collectv(v.get(p[0]), d + 1)
            for g in (v.mem, v.pos):
                if g is not None:
                    collectv(g(p[0]))
        elif isinstance(v, SetV):
            collectv(v.card), collectv(v.mem(p[0]))
        elif isinstance(v, ArrV):
            [collectv(y) for y in v.shape]
            collectv(v.get(*p[:v.ndim]), d + 1)
    collectv(x)
    decls = {}
    for key, d in new.items():
        dom = [I] + [d.domain(i) for i in range(d.arity())]
        decls[key] = z3.Function("fam." + d.name(), *dom, d.range())

    def lift(t, kk):
        if isinstance(t, bool) or not is_term(t):
            return t
        pairs = []
        subs = []
        for key, d in new.items():
            nf = decls[key]
            if d.arity() == 0:
                pairs.append((d(), nf(kk)))
            else:
                vs = [z3.Var(i, d.domain(i)) for i in range(d.arity())]
                subs.append((d, nf(kk, *vs)))
        if subs:
            t = z3.substitute_funs(t, *subs)
        if pairs:
            t = z3.substitute(t, *pairs)
        return z3.substitute(t, (k, as_int(kk)))

    def liftv(v, kk):
        if is_term(v):
            return lift(v, kk)
        if isinstance(v, Fl):
            return Fl(lift(v.v, kk), lift(v.nan, kk))
        if isinstance(v, tuple):
            return tuple(liftv(x, kk) for x in v)
        if isinstance(v, SeqV):
            f = lambda g: None if g is None else (lambda *a: liftv(g(*a), kk))
            return SeqV(lift(v.n, kk), f(v.get), v.kind, v.ety, f(v.mem), f(v.pos),
                        lift(v.distinct, kk) if v.distinct is not None else None,
                        None if v.items is None else [liftv(y, kk) for y in v.items])
        if isinstance(v, SetV):
            return SetV(lambda y: liftv(v.mem(y), kk), lift(v.card, kk) if v.card is not None else None)
        if isinstance(v, ArrV):
            return ArrV([lift(d, kk) for d in v.shape], lambda *a: liftv(v.get(*a), kk), v.dtype)
        return v
    q, = bvars(1)
    for f in facts:
        ex.assume(ForAll([q], z3.Implies(z3.And(0 <= q, as_bool(Lt(q, n))), lift(f, q))))
    return SeqV(n, lambda i: liftv(x, as_int(i)), kind, ety_of(x))


def concat(ex, a, b):
    if a.items is not None and b.items is not None:
        return seq_items(a.items + b.items, a.kind)
    if isinstance(a.n, int) and a.n == 0:
        return b.with_kind(a.kind)
    if isinstance(b.n, int) and b.n == 0:
        return a
    ety = join_ty(a.ety, b.ety)
    n = a.n + b.n
    get = lambda i: merge(Lt(i, a.n), a.get(i), b.get(i - a.n))
    if ety == "int" and a.mem and b.mem and a.pos and b.pos:
        mem = lambda v: Or(a.mem(v), b.mem(v))
        pos = lambda v: If(a.mem(v), a.pos(v), a.n + b.pos(v))
        d = None
        if a.distinct is not None and b.distinct is not None:
            v, = bvars(1)
            if b.items is not None:
                dj = And(*[Not(a.mem(x)) for x in b.items])
            elif a.items is not None:
                dj = And(*[Not(b.mem(x)) for x in a.items])
            else:
                dj = ForAll([v], Not(And(a.mem(v), b.mem(v))))
            d = And(a.distinct, b.distinct, dj)
        return SeqV(n, get, a.kind, "int", mem, pos, d)
    s = SeqV(n, get, a.kind, ety)
    return ex.with_mem(s) if ety == "int" else s


def list_repeat(ex, a, n):
    if isinstance(n, int) and a.items is not None and n * len(a.items) <= 64:
        if isinstance(a.ety, tuple) and n > 1:
            raise Unsupported("repeated mutable elements share one object")
        return ex.new(seq_items(a.items * n))
    if isinstance(a.n, int) and a.n == 1:
        if isinstance(a.ety, tuple) and a.ety[0] in ("set", "seq", "arr", "dict"):
            raise Unsupported("repeated mutable elements share one object")
        x = a.get(0)
        nn = If(Le(0, n), n, 0)
        s = SeqV(nn, lambda i: x, "list", a.ety)
        return ex.new(ex.with_mem(s) if a.ety == "int" else s)
    return ex.new(Opaque("list"))


def norm_idx(ex, i, n):
    """python index -> offset in [0,n); out of range raises IndexError (path ends)"""
    if isinstance(i, int) and isinstance(n, int):
        if -n <= i < n:
            return i % n if n else i
        raise RaiseEx("IndexError", True)
    if isinstance(i, int):
        if i >= 0:
            if not ex.branch(Lt(i, n)):
                raise RaiseEx("IndexError", True)
            return i
        if not ex.branch(Le(-i, n)):
            raise RaiseEx("IndexError", True)
        return n + i
    # symbolic
    if ex.dry:
        # only what the loop modifies is asked for: out-of-range and negative indices reach nothing else
        ex.assume(And(Le(0, i), Lt(i, n)))
        return i
    if not _known(ex, And(Le(0, i), Lt(i, n))):
        if not ex.branch(And(Le(-n if is_term(n) else -n, i), Lt(i, n))):
            raise RaiseEx("IndexError", True)
        if ex.branch(Lt(i, 0)):
            return i + n
    return i


def _known(ex, f):
    from . import solver
    if isinstance(f, bool):
        return f
    qf = [g for g in ex.pc if not solver.has_quant(g)]
    s = z3.Solver()
    s.set("timeout", 300)
    s.add(*qf)
    s.add(z3.Not(f))
    if s.check() == z3.unsat:
        return True
    r = solver.prove(ex.pc, f, ms=500, cvc5=False)
    if r.status != "proved" and os.environ.get("PYVC_KNOWN"):
        print("NOTKNOWN", str(f)[:200], getattr(ex, "line", None), r.status, len(ex.pc), r.time)
    return r.status == "proved"


def seq_slice(ex, s, lo, hi, step):
    n = s.n
    if step is not None and not (isinstance(step, int) and step == 1):
        if isinstance(step, int) and step == -1 and lo is None and hi is None:
            return seq_rev(ex, s)
        if s.items is not None and all(x is None or isinstance(x, int) for x in (lo, hi, step)):
            return seq_items(s.items[slice(lo, hi, step)], s.kind)
        return ex.fresh(("seq", s.kind, s.ety), "slice")

    def clamp(x, default):
        if x is None:
            return default
        if isinstance(x, Opt):
            x = ex.deref(x)
            if ex.branch(x.isnone):
                return default
            x = x.val
        if not is_int(x):
            return ex.fint("sl")
        if isinstance(x, int) and isinstance(n, int):
            return min(max(x + n if x < 0 else x, 0), n)
        if isinstance(x, int) and x < 0:
            return If(Le(0, n + x), n + x, 0)
        if isinstance(x, int):
            return If(Le(x, n), x, n)
        if _known(ex, And(Le(0, x), Le(x, n))):
            return x
        if _known(ex, Le(0, x)):
            return If(Le(x, n), x, n)
        y = If(Lt(x, 0), x + n, x)
        return If(Lt(y, 0), 0, If(Lt(n, y), n, y))
    a, b = clamp(lo, 0), clamp(hi, n)
    if s.items is not None and isinstance(a, int) and isinstance(b, int):
        return seq_items(s.items[a:b], s.kind)
    if isinstance(a, int) and a == 0 and b is n:
        return s
    m = b - a if isinstance(a, int) and a == 0 or _known(ex, Le(a, b)) else If(Le(a, b), b - a, 0)
    get = (lambda i: s.get(i)) if isinstance(a, int) and a == 0 else (lambda i: s.get(a + i))
    if s.ety == "int" and s.mem is not None and s.pos is not None:
        if isinstance(a, int) and a == 0:
            # prefix: pos is the first occurrence
            return SeqV(m, get, s.kind, "int", lambda v: And(s.mem(v), Lt(s.pos(v), b)), s.pos,
                        True if s.distinct is True else ex_implied(ex, s, m, get))
        if s.distinct is True or (is_term(s.distinct) and _known(ex, s.distinct)):
            return SeqV(m, get, s.kind, "int",
                        lambda v: And(s.mem(v), Le(a, s.pos(v)), Lt(s.pos(v), b)),
                        lambda v: s.pos(v) - a, True)
    r = SeqV(m, get, s.kind, s.ety)
    return ex.with_mem(r) if s.ety == "int" else r


def ex_implied(ex, s, m, get):
    if s.distinct is None:
        return None
    d = ex.fbool("sl.distinct")
    ex.assume(Implies(s.distinct, d))
    i, j = bvars(2)
    full = ForAll([i, j], Implies(And(Le(0, i), Lt(i, j), Lt(j, m)), Not(Eq(get(i), get(j)))))
    ex.assume(d == as_bool(full))
    return d


def seq_rev(ex, s):
    if s.items is not None:
        return seq_items(list(reversed(s.items)), s.kind)
    get = lambda i: s.get(s.n - 1 - i)
    if s.ety == "int" and s.mem is not None and (s.distinct is True or _known(ex, s.is_distinct())):
        return SeqV(s.n, get, s.kind, "int", s.mem, lambda v: s.n - 1 - s.pos(v), True)
    r = SeqV(s.n, get, s.kind, s.ety)
    return ex.with_mem(r) if s.ety == "int" else r


def seq_append(ex, s, x):
    if s.items is not None and len(s.items) < 24:
        return seq_items(s.items + [x], s.kind)
    ety = join_ty(s.ety, ety_of(x))
    n = s.n
    get = lambda i: merge(Eq(i, n), x, s.get(i)) if not (isinstance(n, int) and n == 0) else x
    if ety == "int" and s.mem is not None and s.pos is not None:
        d = None if s.distinct is None else And(s.distinct, Not(s.mem(x)))
        return SeqV(n + 1, get, s.kind, "int", lambda v: Or(s.mem(v), Eq(v, x)),
                    lambda v: If(s.mem(v), s.pos(v), n), d)
    r = SeqV(n + 1, get, s.kind, ety)
    return ex.with_mem(r) if ety == "int" else r


def seq_insert0(ex, s, x):
    if s.items is not None and len(s.items) < 24:
        return seq_items([x] + s.items, s.kind)
    ety = join_ty(s.ety, ety_of(x))
    get = lambda i: merge(Eq(i, 0), x, s.get(i - 1))
    if ety == "int" and s.mem is not None and s.pos is not None:
        d = None if s.distinct is None else And(s.distinct, Not(s.mem(x)))
        return SeqV(s.n + 1, get, s.kind, "int", lambda v: Or(Eq(v, x), s.mem(v)),
                    lambda v: If(Eq(v, x), 0, s.pos(v) + 1), d)
    r = SeqV(s.n + 1, get, s.kind, ety)
    return ex.with_mem(r) if ety == "int" else r


def seq_delete(ex, s, idx):
    """remove the element at (normalised) idx"""
    if s.items is not None and isinstance(idx, int):
        return seq_items(s.items[:idx] + s.items[idx + 1:], s.kind)
    get = lambda i: merge(Lt(i, idx), s.get(i), s.get(i + 1))
    n = s.n - 1
    if s.ety == "int" and s.mem is not None and s.pos is not None and s.distinct is not None and (
            s.distinct is True or _known(ex, s.distinct)):
        x = s.get(idx)
        return SeqV(n, get, s.kind, "int", lambda v: And(s.mem(v), Not(Eq(v, x))),
                    lambda v: If(Lt(s.pos(v), idx), s.pos(v), s.pos(v) - 1), True)
    r = SeqV(n, get, s.kind, s.ety)
    return ex.with_mem(r) if s.ety == "int" else r


def list_pop(ex, ref, idx=None):
    s = ex.deref(ref)
    if isinstance(s, Opaque):
        return Opaque("pop")
    i = norm_idx(ex, -1 if idx is None else ex.deref(idx), s.n)
    x = s.get(i)
    ex.write(ref, seq_delete(ex, s, i))
    if isinstance(x, (SeqV, SetV, ArrV, DictV)):
        return ex.new(x)
    return x


def list_extend(ex, ref, other):
    s = ex.deref(ref)
    if isinstance(s, Opaque):
        return
    o = ex.deref(other)
    if isinstance(o, Opaque):
        ex.write(ref, Opaque("list"))
        return
    o = to_seq(ex, o, s.kind)
    if isinstance(ref, (Ref, ElemRef)) and o.ety not in ("int", "float", "bool", "str", None):
        ex.esrc.pop(_root(ref), None)
    ex.write(ref, concat(ex, s, o))


def mask_select(ex, s, m):
    """1-d s[mask]"""
    if m.pred is not None and (m.pred[0] is s or (m.pred[0].get is s.get)) and s.mem is not None:
        f = m.pred[1]
        probe = z3.Int("probe!0")
        r = ex.filter_seq(s, f, "arr")
        # exact length for "drop one value"
        if s.distinct is not None:
            fv = f(probe)
            if is_term(fv) and z3.is_not(fv) and z3.is_eq(fv.arg(0)) or (is_term(fv) and z3.is_distinct(fv)):
                e = fv.arg(0) if z3.is_not(fv) else fv
                x = e.arg(1) if e.arg(0).eq(probe) else e.arg(0)
                ex.assume(Implies(s.distinct, Eq(r.n, If(s.mem(x), s.n - 1, s.n))))
        return r
    r = ex.fresh(("seq", "arr", s.ety), "msel")
    src = ex.ffun("msrc", I, I)
    dst = ex.ffun("mdst", I, I)
    i, j = bvars(2)
    ex.assume(Le(r.n, s.n))
    ex.assume(ForAll([i], z3.Implies(z3.And(0 <= i, i < r.n), And(
        0 <= src(i), Lt(src(i), s.n), as_bool(m.get(src(i))), dst(src(i)) == i)), [src(i)]))
    ex.assume(ForAll([j], z3.Implies(And(0 <= j, Lt(j, s.n), as_bool(m.get(j))), z3.And(
        0 <= dst(j), dst(j) < r.n, src(dst(j)) == j)), [dst(j)]))
    ex.assume(ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < r.n), src(i) < src(j)),
                     [z3.MultiPattern(src(i), src(j))]))
    out = SeqV(r.n, lambda t: s.get(src(as_int(t))), "arr", s.ety)
    return ex.with_mem(out) if s.ety == "int" else out


def where1(ex, m):
    """np.where(mask)[0] for a 1-d mask: increasing indices where true"""
    n = m.n
    r = ex.fresh(("seq", "arr", "int"), "where")
    mem = lambda v: And(Le(0, v), Lt(v, n), m.get(v))
    v, i, j = bvars(3)
    ex.assume(r.distinct)
    ex.assume(ForAll([v], r.mem(v) == as_bool(mem(v)), [r.mem(v)]))
    ex.assume(ForAll([i], z3.Implies(z3.And(0 <= i, i < r.n), And(mem(r.get(i)))), [r.get(i)]))
    ex.assume(ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < r.n), r.get(i) < r.get(j)),
                     [z3.MultiPattern(r.get(i), r.get(j))]))
    ex.assume(Le(r.n, n))
    # an index satisfying the mask is a member, hence the result is not empty
    ex.assume(ForAll([v], Implies(mem(v), z3.And(0 <= r.pos(v), r.pos(v) < r.n, r.get(r.pos(v)) == v))))
    return SeqV(r.n, r.get, "arr", "int", mem, r.pos, True)


def rows_where(ex, a):
    """np.array(np.where(mask2d)).T : the (N,2) array of true positions in row-major order"""
    n = ex.fint("nrow")
    ex.assume(n >= 0)
    g = ex.ffun("row", I, I, I)
    ix = ex.ffun("rowix", I, I, I)
    i, r, c = bvars(3)
    cond = lambda x, y: And(Le(0, x), Lt(x, a.shape[0]), Le(0, y), Lt(y, a.shape[1]), a.get(x, y))
    ex.assume(ForAll([i], z3.Implies(z3.And(0 <= i, i < n), And(cond(g(i, 0), g(i, 1)), ix(g(i, 0), g(i, 1)) == i)),
                     [g(i, 0)]))
    ex.assume(ForAll([r, c], Implies(cond(r, c), z3.And(0 <= ix(r, c), ix(r, c) < n, g(ix(r, c), 0) == r,
                                                        g(ix(r, c), 1) == c))))
    return ArrV((n, 2), lambda x, y: g(as_int(x), as_int(y)), "int",
                rowcnt=lambda x, y: If(cond(x, y), 1, 0))


# ====================================================================== iteration
def iterate(ex, v):
    raw = v
    v = ex.deref(v)
    if isinstance(v, IterV):
        return v
    if isinstance(v, tuple):
        return IterV(len(v), None, items=list(v))
    if isinstance(v, SeqV):
        if v.items is not None:
            return IterV(v.n, lambda e, k: e.elem_ref(raw, k), items=[ex.elem_ref(raw, i) for i in range(len(v.items))])
        if isinstance(raw, (Ref, ElemRef)) and isinstance(v.ety, tuple) and v.ety[0] in ("set", "seq", "arr", "dict") :
            return IterV(v.n, lambda e, k: e.elem_ref(raw, k))
        snap = v
        if v.ety == "opaque" and isinstance(v.get(z3.Int("probe!0")), AltV):
            return IterV(v.n, lambda e, k: snap.get(k).pick(e))
        it = IterV(v.n, lambda e, k: e.new(snap.get(k)) if isinstance(snap.get(k), (SetV, ArrV)) or (
            isinstance(snap.get(k), SeqV) and snap.get(k).kind != "tuple") else snap.get(k))
        if v.ety == "int":
            it.seq = v
        return it
    if isinstance(v, ArrV):
        if isinstance(v.shape[0], int) and v.shape[0] <= 8:
            return IterV(v.shape[0], None, items=[ex.elem_ref(raw, i) for i in range(v.shape[0])])
        if isinstance(raw, (Ref, ElemRef)):
            return IterV(v.shape[0], lambda e, k: e.elem_ref(raw, k))
        return IterV(v.shape[0], lambda e, k: elem_value(v, k))
    if isinstance(v, SetV):
        s = ex.set_to_seq(v)
        return iterate(ex, s)
    if isinstance(v, DictV):
        if v.cd is not None:
            return IterV(len(v.cd), None, items=list(v.cd))
        return iterate(ex, ex.set_to_seq(SetV(v.has)))
    if isinstance(v, Opaque):
        n = ex.fint("n")
        ex.assume(n >= 0)
        return IterV(n, lambda e, k: Opaque(v.tag + "[]", v.alias))
    if isinstance(v, Opt):
        if ex.branch(v.isnone):
            raise RaiseEx("TypeError", True)
        return iterate(ex, v.val)
    if v is None:
        raise RaiseEx("TypeError", True)
    if isinstance(v, str):
        return IterV(len(v), None, items=list(v))
    raise Unsupported(f"iterate {v!r}")


def combinations(ex, pool, r):
    """itertools.combinations: each element is an index-increasing r-subsequence of the pool"""
    pool_s = to_seq(ex, pool, "tuple")
    n = ex.fint("ncomb")
    ex.assume(n >= 0)
    if isinstance(r, int) and r == 2:
        a = ex.ffun("comb.a", I, I)
        b = ex.ffun("comb.b", I, I)
        ix = ex.ffun("comb.ix", I, I, I)
        k, i, j = bvars(3)
        ex.assume(ForAll([k], Implies(And(0 <= k, k < n), And(
            0 <= a(k), a(k) < b(k), Lt(b(k), pool_s.n), ix(a(k), b(k)) == k)), [a(k)]))
        ex.assume(ForAll([k], Implies(And(0 <= k, k < n), And(
            0 <= a(k), a(k) < b(k), Lt(b(k), pool_s.n), ix(a(k), b(k)) == k)), [b(k)]))
        ex.assume(ForAll([i, j], Implies(And(0 <= i, i < j, Lt(j, pool_s.n)), And(
            0 <= ix(i, j), ix(i, j) < n, a(ix(i, j)) == i, b(ix(i, j)) == j)), [ix(i, j)]))
        it = IterV(n, lambda e, kk: (pool_s.get(a(as_int(kk))), pool_s.get(b(as_int(kk)))))
        it.comb = (a, b, ix)
        return it

    def elem(e, kk):
        m = e.fresh(("seq", "tuple", "int"), "comb", n=None)
        e.assume(Eq(m.n, r))
        q, = bvars(1)
        e.assume(m.distinct if pool_s.distinct is not None else True)
        e.assume(Implies(pool_s.is_distinct(), m.distinct))
        e.assume(ForAll([q], z3.Implies(m.mem(q), as_bool(pool_s.has(q))), [m.mem(q)]))
        return m
    if pool_s.ety not in ("int", None):
        return IterV(n, lambda e, kk: Opaque("comb"))
    return IterV(n, elem)


# ====================================================================== subscripts
def eval_index(ex, sl):
    if isinstance(sl, ast.Tuple):
        return tuple(ex.eval(x) if isinstance(x, ast.Slice) else ex.deref(ex.eval(x)) for x in sl.elts)
    if isinstance(sl, ast.Slice):
        return ex.eval(sl)
    return ex.deref(ex.eval(sl))


def load_sub(ex, base, sl):
    return load(ex, base, eval_index(ex, sl))


def load(ex, base, idx):
    if isinstance(base, ExtV):
        if base.qual in ("numpy.r_", "numpy.c_"):
            return Opaque("stack")
        return Opaque("sub")
    c = ex.deref(base)
    if isinstance(c, Opt):
        if ex.branch(c.isnone):
            raise RaiseEx("TypeError", True)
        base = c.val
        c = ex.deref(base)
    if isinstance(idx, Opt):
        if ex.branch(idx.isnone):
            raise RaiseEx("TypeError", True)
        idx = ex.deref(idx.val)
    if c is None:
        raise RaiseEx("TypeError", True)
    if isinstance(c, Opaque):
        return Opaque(c.tag + "[]", c.alias)
    if isinstance(c, tuple):
        if isinstance(idx, SliceV):
            if all(x is None or isinstance(x, int) for x in (idx.lo, idx.hi, idx.step)):
                return c[slice(idx.lo, idx.hi, idx.step)]
            return Opaque("tupslice")
        if isinstance(idx, int):
            if not -len(c) <= idx < len(c):
                raise RaiseEx("IndexError", True)
            return c[idx]
        if is_int(idx):
            vals = [ex.deref(x) for x in c]
            s = seq_items(vals, "tuple")
            return s.get(norm_idx(ex, idx, len(c)))
        return Opaque("tupsub")
    if isinstance(c, str):
        return Opaque("str")
    if isinstance(c, DictV):
        if c.cd is not None:
            if isinstance(idx, (int, str, bool)):
                if idx not in c.cd:
                    raise RaiseEx("KeyError", True)
                return ex.elem_ref(base, idx) if not isinstance(c.cd[idx], (Ref, ElemRef)) else c.cd[idx]
            if is_int(idx) and all(isinstance(k, int) for k in c.cd) and c.cd:
                if not ex.branch(Or(*[Eq(idx, k) for k in c.cd])):
                    raise RaiseEx("KeyError", True)
                for k in c.cd:
                    if ex.branch(Eq(idx, k)):
                        return ex.elem_ref(base, k)
            return Opaque("dictsub")
        if not is_int(idx):
            return Opaque("dictsub")
        if not _known(ex, c.has(idx)):
            if not ex.branch(c.has(idx)):
                raise RaiseEx("KeyError", True)
        return ex.elem_ref(base, idx)
    if isinstance(c, SeqV):
        if isinstance(idx, tuple) and len(idx) == 1:
            idx = idx[0]
        if is_int(idx):
            i = norm_idx(ex, idx, c.n)
            if c.ety == "opaque" and isinstance(c.get(i), AltV):
                return c.get(i).pick(ex)
            return ex.elem_ref(base, i)
        if isinstance(idx, SliceV):
            r = seq_slice(ex, c, idx.lo, idx.hi, idx.step)
            if c.kind in ("tuple", "range"):
                return r
            ref = ex.new(r)
            if c.kind == "arr":
                add_view(ex, ref, base)
            return ref
        if c.kind == "arr":
            if isinstance(idx, SeqV):
                if idx.ety == "bool":
                    return ex.new(mask_select(ex, c, idx))
                if idx.ety == "int" or (isinstance(idx.n, int) and idx.n == 0):
                    return ex.new(fancy1(ex, c, idx))
                return Opaque("fancy")
            if isinstance(idx, tuple):
                if len(idx) == 2 and any(x is None for x in idx):
                    sl = [x for x in idx if x is not None]
                    if sl and isinstance(sl[0], SliceV) and sl[0].lo is None and sl[0].hi is None:
                        if idx[1] is None:
                            r = ArrV((c.n, 1), lambda i, j: c.get(i), c.ety)
                        else:
                            r = ArrV((1, c.n), lambda i, j: c.get(j), c.ety)
                        ref = ex.new(r)
                        add_view(ex, ref, base)
                        return ref
                return Opaque("sub", alias_base(ex, base))
        return Opaque("sub", alias_base(ex, base))
    if isinstance(c, ArrV):
        return load_arr(ex, base, c, idx)
    if isinstance(c, SetV):
        raise RaiseEx("TypeError", True)
    return Opaque("sub")


def alias_base(ex, base):
    if isinstance(base, (Ref, ElemRef)):
        return frozenset([_root(base)])
    return frozenset()


def add_view(ex, ref, base):
    if isinstance(base, (Ref, ElemRef)):
        ex.views[ref.id] = tuple(set(ex.views.get(ref.id, ())) | {_root(base)})


def fancy1(ex, c, idx):
    n = c.n
    if idx.items is not None:
        items = []
        for i in idx.items:
            items.append(c.get(norm_idx(ex, i, n)))
        return seq_items(items, "arr")
    # indices assumed in range (numpy raises otherwise) and non-negative when provable
    v, = bvars(1)
    nn = _known(ex, ForAll([v], Implies(idx.has(v), Le(0, v))))
    ex.assume(ForAll([v], Implies(idx.has(v), And(Le(-n, v), Lt(v, n)))))
    nz = (lambda i: i) if nn else (lambda i: If(Lt(i, 0), i + n, i))
    get = lambda t: c.get(nz(idx.get(t)))
    r = SeqV(idx.n, get, "arr", c.ety)
    return ex.with_mem(r) if c.ety == "int" else r


def axis_spec(ex, i, n):
    """-> ('int', off) | ('slice', lo, len) | ('seq', SeqV) | ('mask', SeqV) | None unsupported"""
    if is_int(i):
        return ("int", norm_idx(ex, i, n))
    if isinstance(i, SliceV):
        if i.lo is None and i.hi is None and i.step is None:
            return ("slice", 0, n)
        base = SeqV(n, lambda t: t, "arr", "int", lambda v: And(Le(0, v), Lt(v, n)), lambda v: v, True)
        if i.step is None or (isinstance(i.step, int) and i.step == 1):
            s = seq_slice(ex, base, i.lo, i.hi, None)
            return ("slice", s.get(0), s.n) if not isinstance(s.n, int) or s.n > 0 else ("slice", 0, 0)
        if isinstance(i.step, int) and i.step == -1 and i.lo is None and i.hi is None:
            return ("seq", SeqV(n, lambda t: n - 1 - t, "arr", "int", lambda v: And(Le(0, v), Lt(v, n)),
                                lambda v: n - 1 - v, True))
        return None
    if isinstance(i, SeqV):
        if i.ety == "bool":
            return ("mask", i)
        if i.ety == "int" or (isinstance(i.n, int) and i.n == 0):
            v, = bvars(1)
            if i.items is not None:
                items = [norm_idx(ex, x, n) for x in i.items]
                return ("seq", seq_items(items, "arr"))
            if i.mem is None:
                i = ex.with_mem(i)
            ex.assume(ForAll([v], Implies(i.has(v), And(Le(-n, v), Lt(v, n)))))
            if not _known(ex, ForAll([v], Implies(i.has(v), Le(0, v)))):
                return None
            return ("seq", i)
        return None
    return None


def load_arr(ex, base, c, idx):
    al = alias_base(ex, base)
    if not isinstance(idx, tuple):
        idx = (idx,)
    if any(x is None or isinstance(x, (ExtV,)) for x in idx):
        return Opaque("sub", al)
    if any(isinstance(x, (Opaque, IxV, ArrV, Fl, Opt)) for x in idx):
        if len(idx) == 1 and isinstance(idx[0], IxV) and len(idx[0].seqs) == c.ndim:
            sp = [axis_spec(ex, s, n) for s, n in zip(idx[0].seqs, c.shape)]
            if all(x and x[0] in ("seq", "mask") for x in sp):
                ss = [x[1] if x[0] == "seq" else where1(ex, x[1]) for x in sp]
                return ex.new(ArrV([s.n for s in ss],
                                   lambda *i: c.get(*[s.get(t) for s, t in zip(ss, i)]), c.dtype))
        if len(idx) == 1 and isinstance(idx[0], ArrV) and idx[0].dtype == "bool" and idx[0].ndim == c.ndim:
            return ex.new(ex.fresh(("seq", "arr", c.dtype), "bsel"))
        return Opaque("sub", al)
    if len(idx) > c.ndim:
        raise RaiseEx("IndexError", True)
    # row multiset filters: po[po[:,0] != m]
    if len(idx) == 1 and isinstance(idx[0], SeqV) and idx[0].ety == "bool" and c.ndim == 2:
        return ex.new(row_mask(ex, c, idx[0]))
    if c.rowcnt is not None and len(idx) == 2 and isinstance(idx[0], SliceV) and idx[0].lo is None and \
            idx[0].hi is None and isinstance(idx[1], SeqV) and idx[1].items == [1, 0]:
        rc = c.rowcnt
        return ex.new(ArrV(c.shape, lambda i, j: c.get(i, 1 - j), "int", rowcnt=lambda a, b: rc(b, a)))
    specs = []
    for i, n in zip(idx, c.shape):
        s = axis_spec(ex, i, n)
        if s is None:
            return Opaque("sub", al)
        specs.append(s)
    for n in c.shape[len(idx):]:
        specs.append(("slice", 0, n))
    specs = [("seq", where1(ex, s[1])) if s[0] == "mask" else s for s in specs]
    nseq = sum(1 for s in specs if s[0] == "seq")
    if nseq == 2 and c.ndim == 2:
        # paired fancy indexing
        a, b = specs[0][1], specs[1][1]
        r = SeqV(a.n, lambda t: c.get(a.get(t), b.get(t)), "arr", c.dtype)
        return ex.new(ex.with_mem(r) if c.dtype == "int" else r)
    if nseq > 1:
        return Opaque("sub", al)
    out_shape, maps = [], []
    for s in specs:
        if s[0] == "int":
            maps.append(("c", s[1]))
        elif s[0] == "slice":
            maps.append(("s", s[1], len(out_shape)))
            out_shape.append(s[2])
        else:
            maps.append(("q", s[1], len(out_shape)))
            out_shape.append(s[1].n)

    def at(*i):
        ii = []
        for m in maps:
            if m[0] == "c":
                ii.append(m[1])
            elif m[0] == "s":
                ii.append(i[m[2]] if isinstance(m[1], int) and m[1] == 0 else m[1] + i[m[2]])
            else:
                ii.append(m[1].get(i[m[2]]))
        return c.get(*ii)
    if not out_shape:
        return at()
    basic = nseq == 0
    if len(out_shape) == 1:
        r = SeqV(out_shape[0], lambda t: at(t), "arr", c.dtype)
        if c.rowcnt is not None and specs[0][0] == "slice" and specs[1][0] == "int" and \
                isinstance(specs[0][1], int) and specs[0][1] == 0 and isinstance(specs[1][1], int):
            rc, col = c.rowcnt, specs[1][1]

            def mem(v):
                w, = bvars(1)
                return Exists([w], Lt(0, rc(v, w) if col == 0 else rc(w, v)))
            r = SeqV(out_shape[0], lambda t: at(t), "arr", "int", mem=mem, src=(c, col))
        elif c.dtype == "int":
            r = ex.with_mem(r)
    else:
        r = ArrV(out_shape, at, c.dtype)
        if c.ndim == 2 and nseq == 1 and specs[1][0] == "seq" and specs[0] == ("slice", 0, c.shape[0]):
            r.src = ("cols", c, specs[1][1])
    ref = ex.new(r)
    if basic:
        # whole leading-int basic index keeps write-through
        lead = 0
        while lead < len(specs) and specs[lead][0] == "int":
            lead += 1
        if all(s[0] == "slice" and isinstance(s[1], int) and s[1] == 0 and _same_term(s[2], n)
               for s, n in zip(specs[lead:], c.shape[lead:])) and isinstance(base, (Ref, ElemRef)) and lead > 0:
            e = base
            for s in specs[:lead]:
                e = ElemRef(e, s[1])
            return e
        add_view(ex, ref, base)
    return ref


def row_mask(ex, c, m):
    n = ex.fint("nrow")
    ex.assume(n >= 0)
    ex.assume(Le(n, c.shape[0]))
    src = ex.ffun("rsrc", I, I)
    dst = ex.ffun("rdst", I, I)
    i, j = bvars(2)
    ex.assume(ForAll([i], z3.Implies(z3.And(0 <= i, i < n), And(
        0 <= src(i), Lt(src(i), c.shape[0]), as_bool(m.get(src(i))), dst(src(i)) == i)), [src(i)]))
    ex.assume(ForAll([j], z3.Implies(And(0 <= j, Lt(j, c.shape[0]), as_bool(m.get(j))), z3.And(
        0 <= dst(j), dst(j) < n, src(dst(j)) == j)), [dst(j)]))
    rc = None
    if c.rowcnt is not None:
        if m.src is not None and m.src[0] == "col" and m.src[1][0] is c:
            col, f = m.src[1][1], m.src[2]
            rc0 = c.rowcnt
            rc = lambda a, b: If(f(a if col == 0 else b), rc0(a, b), 0)
        elif m.src is not None and m.src[0] == "rows" and m.src[1] is c:
            f = m.src[2]
            rc0 = c.rowcnt
            rc = lambda a, b: If(f(a, b), rc0(a, b), 0)
    out = ArrV((n,) + tuple(c.shape[1:]), lambda t, *r: c.get(src(as_int(t)), *r), c.dtype, rowcnt=rc)
    if rc is not None:
        link_rows(ex, out)
    return out


def with_rows(ex, a):
    """attach fresh row multiplicities, defined by axioms, to an (N, 2) integer array"""
    n, g = a.shape[0], a.get
    rc = ex.ffun("row_cnt", I, I, I)
    i, = bvars(1)
    ex.assume(ForAll([i], Implies(And(Le(0, i), Lt(i, n)), Lt(0, rc(as_int(g(i, 0)), as_int(g(i, 1))))), [as_int(g(i, 0))]))
    ix = ex.ffun("row_ix", I, I, I)
    x, y = bvars(2)
    ex.assume(ForAll([x, y], Implies(Lt(0, rc(x, y)), And(0 <= ix(x, y), ix(x, y) < n, Eq(g(ix(x, y), 0), x),
                                                          Eq(g(ix(x, y), 1), y))), [rc(x, y)]))
    a = ArrV(a.shape, a.get, a.dtype, rowcnt=lambda p, q: rc(as_int(p), as_int(q)))
    link_rows(ex, a)
    return a


def link_rows(ex, a):
    """row count of an (N,2) array vs. its length: non-empty iff some multiplicity is positive"""
    w0, w1 = ex.fint("rw"), ex.fint("rw")
    x, y = bvars(2)
    ex.assume(Implies(Lt(0, a.shape[0]), Lt(0, a.rowcnt(w0, w1))))
    ex.assume(ForAll([x, y], Implies(Lt(0, a.rowcnt(x, y)), Lt(0, a.shape[0]))))
    ex.assume(ForAll([x, y], Le(0, a.rowcnt(x, y))))


class IxV:
    def __init__(self, seqs):
        self.seqs = seqs


def store_sub(ex, base, sl, val):
    idx = eval_index(ex, sl)
    store(ex, base, idx, val)


def store(ex, base, idx, val):
    c = ex.deref(base)
    if isinstance(c, Opt):
        if ex.branch(c.isnone):
            raise RaiseEx("TypeError", True)
        c = ex.deref(c.val)
    if isinstance(idx, Opt):
        if ex.branch(idx.isnone):
            raise RaiseEx("TypeError", True)
        idx = ex.deref(idx.val)
    if isinstance(c, Opaque):
        for b in c.alias:
            ex.clobber(b)
        if isinstance(base, (Ref, ElemRef)):
            ex.write(base, Opaque(c.tag, c.alias))
        return
    if isinstance(c, DictV):
        if isinstance(base, Ref) and isinstance(val, (Ref, ElemRef)) and not isinstance(ex.deref(val), ObjV):
            if c.cd is not None and isinstance(idx, (str,)):
                ex.write(base, ex.dict_store(c, idx, val))
                return
            val = ex.note_elem(base, val)
        if isinstance(base, Ref):
            ex.freeze_elems(base.id)
        ex.write(base, ex.dict_store(c, idx, val))
        return
    if isinstance(c, SeqV):
        if isinstance(idx, tuple) and len(idx) == 1:
            idx = idx[0]
        if is_int(idx):
            i = norm_idx(ex, idx, c.n)
            if isinstance(val, (Ref, ElemRef)):
                val = ex.note_elem(base, val)
            if c.kind == "list" and isinstance(base, (Ref, ElemRef)) and isinstance(c.ety, tuple):
                ex.freeze_elems(_root(base))
            ex.store_elem(base, i, val)
            return
        if c.kind == "arr":
            v = ex.deref(val)
            if isinstance(idx, SliceV) or isinstance(idx, SeqV):
                sp = axis_spec(ex, idx, c.n)
                if sp is not None and c.ety in ("int", "float", "bool"):
                    g, hit = axis_store(ex, sp, v, c.ety, 1)
                    r = SeqV(c.n, lambda i: merge(hit(i), g(i), c.get(i)), "arr", c.ety)
                    ex.write(base, ex.with_mem(r) if c.ety == "int" else r)
                    return
            ex.write(base, ex.fresh(("seq", "arr", c.ety), "st", n=c.n))
            return
        if isinstance(idx, SliceV):
            if isinstance(base, (Ref, ElemRef)):
                ex.esrc.pop(_root(base), None)
            ex.write(base, ex.fresh(("seq", c.kind, c.ety), "st"))
            return
        raise RaiseEx("TypeError", True)
    if isinstance(c, ArrV):
        store_arr(ex, base, c, idx, val)
        return
    if c is None or isinstance(c, tuple):
        raise RaiseEx("TypeError", True)
    raise Unsupported("store")


def axis_store(ex, sp, v, dtype, nd):
    """1-d: -> (value at index, hit predicate)"""
    if sp[0] == "slice":
        lo, ln = sp[1], sp[2]
        g = ex.as_grid(v, 1, dtype)
        return (lambda i: g(i - lo if not (isinstance(lo, int) and lo == 0) else i)), (
            lambda i: And(Le(lo, i), Lt(i, lo + ln)))
    if sp[0] == "seq":
        s = sp[1]
        if isinstance(v, (SeqV, ArrV)) and not _known(ex, s.is_distinct()):
            g0 = ex.family("dup", dtype, 1)
            return (lambda i: g0(i)), (lambda i: s.has(i))
        g = ex.as_grid(v, 1, dtype)
        return (lambda i: g(s.pos(i) if s.pos else 0)), (lambda i: s.has(i))
    if sp[0] == "mask":
        m = sp[1]
        if isinstance(v, (SeqV, ArrV, Opaque)):
            g0 = ex.family("msk", dtype, 1)
            return (lambda i: g0(i)), (lambda i: m.get(i))
        x = ex.coerce(v, dtype)
        return (lambda i: x), (lambda i: m.get(i))
    raise Unsupported("axis_store")


def store_arr(ex, base, c, idx, val):
    if not isinstance(idx, tuple):
        idx = (idx,)
    v = ex.deref(val)
    if len(idx) == 1 and isinstance(idx[0], ArrV) and idx[0].dtype == "bool" and idx[0].ndim == c.ndim:
        m = idx[0]
        if isinstance(v, (SeqV, ArrV, Opaque)):
            g = ex.family("msk", c.dtype, c.ndim)
        else:
            x = ex.coerce(v, c.dtype)
            g = lambda *i: x
        ex.write(base, ArrV(c.shape, lambda *i: merge(m.get(*i), g(*i), c.get(*i)), c.dtype))
        return
    specs = []
    ok = len(idx) <= c.ndim and c.dtype in ("int", "float", "bool")
    if len(idx) == 1 and isinstance(idx[0], IxV) and len(idx[0].seqs) == c.ndim:
        specs = [axis_spec(ex, s, n) for s, n in zip(idx[0].seqs, c.shape)]
        outer = True
        ok = ok and all(specs)
    else:
        outer = False
        if ok:
            for i, n in zip(idx, c.shape):
                s = axis_spec(ex, i, n) if not isinstance(i, (Opaque, ArrV, Fl)) and i is not None else None
                if s is None:
                    ok = False
                    break
                specs.append(s)
    if not ok:
        if c.dtype == "opaque":
            ex.write(base, ArrV(c.shape, c.get, "opaque"))
        else:
            ex.write(base, ArrV(c.shape, ex.family("st", c.dtype, c.ndim), c.dtype))
        return
    for n in c.shape[len(specs):]:
        specs.append(("slice", 0, n))
    nseq = sum(1 for s in specs if s[0] in ("seq", "mask"))
    if nseq == 2 and not outer:
        a, b = specs[0], specs[1]
        if c.ndim == 2 and a[0] == b[0] == "seq":
            sa, sb = a[1], b[1]
            if isinstance(v, (SeqV, ArrV, Opaque)):
                g = ex.family("pair", c.dtype, 2)
            else:
                x = ex.coerce(v, c.dtype)
                g = lambda *i: x
            q = lambda i, j: Exists([t0], And(0 <= t0, Lt(t0, sa.n), Eq(sa.get(t0), i), Eq(sb.get(t0), j)))
            t0, = bvars(1)
            ex.write(base, ArrV(c.shape, lambda i, j: merge(q(i, j), g(i, j), c.get(i, j)), c.dtype))
            return
        ex.write(base, ArrV(c.shape, ex.family("st", c.dtype, c.ndim), c.dtype))
        return
    # value grid over the non-int axes
    free = [d for d, s in enumerate(specs) if s[0] != "int"]
    dup = False
    for s in specs:
        if s[0] == "seq" and isinstance(v, (SeqV, ArrV)) and not _known(ex, s[1].is_distinct()):
            dup = True
        if s[0] == "mask" and isinstance(v, (SeqV, ArrV)):
            dup = True
    if dup:
        gg = ex.family("dup", c.dtype, c.ndim)
        val_at = lambda *i: gg(*i)
    else:
        if isinstance(v, Opaque):
            gg = ex.family("st", c.dtype, c.ndim)
            val_at = lambda *i: gg(*i)
        else:
            g = ex.as_grid(v, len(free), c.dtype)

            def val_at(*i):
                ii = []
                for d in free:
                    s = specs[d]
                    if s[0] == "slice":
                        ii.append(i[d] if isinstance(s[1], int) and s[1] == 0 else i[d] - s[1])
                    elif s[0] == "mask":
                        ii.append(i[d])
                    else:
                        ii.append(s[1].pos(i[d]))
                return g(*ii)

    def hit(*i):
        cs = []
        for d, s in enumerate(specs):
            if s[0] == "int":
                cs.append(Eq(i[d], s[1]))
            elif s[0] == "slice":
                if not (isinstance(s[1], int) and s[1] == 0 and _same_term(s[2], c.shape[d])):
                    cs.append(And(Le(s[1], i[d]), Lt(i[d], s[1] + s[2])))
            elif s[0] == "mask":
                cs.append(s[1].get(i[d]))
            else:
                cs.append(s[1].has(i[d]))
        return And(*cs)
    ex.write(base, ArrV(c.shape, lambda *i: merge(hit(*i), val_at(*i), c.get(*i)), c.dtype))


# ====================================================================== comparison
def compare(ex, op, l, r):
    if isinstance(op, (ast.Is, ast.IsNot)):
        v = _is(ex, l, r)
        return v if isinstance(op, ast.Is) else Not(v)
    a, b = ex.deref(l), ex.deref(r)
    if isinstance(op, (ast.In, ast.NotIn)):
        v = contains(ex, b, a)
        return v if isinstance(op, ast.In) else Not(v)
    return cmp(ex, op, a, b)


def _is(ex, l, r):
    a, b = ex.deref(l), ex.deref(r)
    if a is None or b is None:
        x = b if a is None else a
        if x is None:
            return True
        if isinstance(x, Opt):
            return x.isnone
        if isinstance(x, Opaque):
            return z3.Bool(f"truth@isnone{x.uid}")
        return False
    if isinstance(a, bool) and isinstance(b, bool):
        return a is b
    if is_bool(a) and is_bool(b):
        return Eq(as_bool(a), as_bool(b))
    if is_bool(a) or is_bool(b):
        o = b if is_bool(a) else a
        if is_int(o) or isinstance(o, (str, SeqV, ArrV, SetV, Fl, float, DictV, ObjV)):
            return False
        return ex.fbool("is")
    if isinstance(l, Ref) and isinstance(r, Ref):
        return l.id == r.id
    return ex.fbool("is")


def contains(ex, c, x):
    if isinstance(c, Opt):
        if ex.branch(c.isnone):
            raise RaiseEx("TypeError", True)
        c = ex.deref(c.val)
    if isinstance(c, SetV):
        if is_int(x):
            return c.mem(x)
        if isinstance(x, Opt):
            return And(Not(x.isnone), c.mem(x.val)) if is_int(x.val) else ex.fbool("in")
        return ex.fbool("in")
    if isinstance(c, SeqV):
        if is_int(x) and c.ety in ("int", None):
            return c.has(x)
        if isinstance(c.n, int) and c.n == 0:
            return False
        if c.items is not None:
            try:
                return Or(*[ex.truth(cmp(ex, ast.Eq(), ex.deref(y), x)) for y in c.items])
            except Unsupported:
                return ex.fbool("in")
        if isinstance(c.ety, tuple) and c.ety[0] == "set" and isinstance(x, SetV):
            q, = bvars(1)
            e = c.get(q)
            v, = bvars(1)
            return Exists([q], And(0 <= q, Lt(q, c.n),
                                   ForAll([v], as_bool(Eq(as_bool(e.mem(v)), as_bool(x.mem(v)))))))
        if c.ety == "bool" and x is True:
            q, = bvars(1)
            return Exists([q], And(0 <= q, Lt(q, c.n), c.get(q)))
        if c.ety == "bool" and x is False:
            q, = bvars(1)
            return Exists([q], And(0 <= q, Lt(q, c.n), Not(c.get(q))))
        return ex.fbool("in")
    if isinstance(c, ArrV):
        if c.dtype == "bool" and isinstance(x, bool) and c.ndim == 2:
            q, p = bvars(2)
            return Exists([q, p], And(0 <= q, Lt(q, c.shape[0]), 0 <= p, Lt(p, c.shape[1]),
                                      c.get(q, p) if x else Not(c.get(q, p))))
        return ex.fbool("in")
    if isinstance(c, tuple):
        out = []
        for y in c:
            out.append(ex.truth(cmp(ex, ast.Eq(), ex.deref(y), x)))
        return Or(*out)
    if isinstance(c, DictV):
        if c.cd is not None:
            if isinstance(x, (int, str)):
                return x in c.cd
            if is_int(x) and all(isinstance(k, int) for k in c.cd):
                return Or(*[Eq(x, k) for k in c.cd])
            if not c.cd:
                return False
            return ex.fbool("in")
        if is_int(x):
            return c.has(x)
        return ex.fbool("in")
    if isinstance(c, str) and isinstance(x, str):
        return x in c
    return ex.fbool("in")


def cmp(ex, op, a, b):
    if isinstance(a, StrS) or isinstance(b, StrS):
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if isinstance(a, (str, StrS)) and isinstance(b, (str, StrS)):
                f = lambda x: str_code(x) if isinstance(x, str) else x.t
                v = Eq(f(a), f(b))
                return v if isinstance(op, ast.Eq) else Not(v)
            if isinstance(a, Opaque) or isinstance(b, Opaque) or isinstance(a, Opt) or isinstance(b, Opt):
                return ex.fbool("streq")
            return isinstance(op, ast.NotEq)
        return ex.fbool("strcmp")
    if isinstance(a, Opt) or isinstance(b, Opt):
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if a is None or b is None:
                x = b if a is None else a
                v = x.isnone
                return v if isinstance(op, ast.Eq) else Not(v)
            a1 = a if isinstance(a, Opt) else Opt(False, a)
            b1 = b if isinstance(b, Opt) else Opt(False, b)
            e = ex.truth(cmp(ex, ast.Eq(), ex.deref(a1.val), ex.deref(b1.val)))
            v = Or(And(a1.isnone, b1.isnone), And(Not(a1.isnone), Not(b1.isnone), e))
            return v if isinstance(op, ast.Eq) else Not(v)
        for x in (a, b):
            if isinstance(x, Opt) and ex.branch(x.isnone):
                raise RaiseEx("TypeError", True)
        a = ex.deref(a.val) if isinstance(a, Opt) else a
        b = ex.deref(b.val) if isinstance(b, Opt) else b
    if isinstance(a, SetV) and isinstance(b, SetV):
        v, = bvars(1)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            e = set_eq(a, b)
            return e if isinstance(op, ast.Eq) else Not(e)
        if isinstance(op, ast.LtE):
            return ForAll([v], Implies(a.mem(v), b.mem(v)))
        if isinstance(op, ast.GtE):
            return ForAll([v], Implies(b.mem(v), a.mem(v)))
        return ex.fbool("setcmp")
    arr = lambda x: isinstance(x, ArrV) or (isinstance(x, SeqV) and x.kind == "arr")
    if arr(a) or arr(b):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            x = a if arr(a) else b
            if isinstance(x, SeqV):
                return ex.new(SeqV(x.n, ex.family("cmp", "bool", 1), "arr", "bool"))
            return ex.new(ArrV(x.shape, ex.family("cmp", "bool", x.ndim), "bool"))
        if (isinstance(a, SeqV) and (a.ety == "opaque" or isinstance(a.ety, tuple))) or (isinstance(a, ArrV) and a.dtype == "opaque"):
            if isinstance(a, SeqV):
                return ex.new(SeqV(a.n, ex.family("cmp", "bool", 1), "arr", "bool"))
            return ex.new(ArrV(a.shape, ex.family("cmp", "bool", a.ndim), "bool"))
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return Opaque("cmp")
        return elementwise(ex, lambda x, y: cmp(ex, op, x, y), a, b, "bool")
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Opaque("cmp")
    if isinstance(a, SeqV) and isinstance(b, tuple):
        b = seq_items(list(b), "tuple")
    if isinstance(b, SeqV) and isinstance(a, tuple):
        a = seq_items(list(a), "tuple")
    if isinstance(a, tuple) and isinstance(b, tuple):
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if len(a) != len(b):
                e = False
            else:
                e = And(*[ex.truth(cmp(ex, ast.Eq(), ex.deref(x), ex.deref(y))) for x, y in zip(a, b)])
            return e if isinstance(op, ast.Eq) else Not(e)
        return ex.fbool("tupcmp")
    if isinstance(a, SeqV) and isinstance(b, SeqV):
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if a.items is not None and b.items is not None and len(a.items) != len(b.items):
                e = False
            elif a.ety in ("int", None) and b.ety in ("int", None):
                i, = bvars(1)
                e = And(Eq(a.n, b.n), ForAll([i], Implies(And(0 <= i, Lt(i, a.n)), Eq(a.get(i), b.get(i)))))
            else:
                e = ex.fbool("seqeq")
            return e if isinstance(op, ast.Eq) else Not(e)
        return ex.fbool("seqcmp")
    if isinstance(a, str) and isinstance(b, str):
        if isinstance(op, ast.Eq):
            return a == b
        if isinstance(op, ast.NotEq):
            return a != b
    if is_bool(a) and is_bool(b) and isinstance(op, (ast.Eq, ast.NotEq)):
        e = Eq(as_bool(a), as_bool(b)) if is_term(a) or is_term(b) else a == b
        return e if isinstance(op, ast.Eq) else Not(e)
    if isnum(a) and isnum(b):
        if is_bool(a):
            a = If(a, 1, 0)
        if is_bool(b):
            b = If(b, 1, 0)
        if is_int(a) and is_int(b):
            return {ast.Eq: lambda: Eq(a, b), ast.NotEq: lambda: Not(Eq(a, b)), ast.Lt: lambda: Lt(a, b),
                    ast.LtE: lambda: Le(a, b), ast.Gt: lambda: Lt(b, a), ast.GtE: lambda: Le(b, a)}[type(op)]()
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {ast.Eq: a == b, ast.NotEq: a != b, ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b,
                    ast.GtE: a >= b}[type(op)]
        x, y = to_fl(a), to_fl(b)
        ok = And(Not(x.nan), Not(y.nan))
        f = {ast.Eq: lambda: Eq(x.v, y.v), ast.NotEq: lambda: Eq(x.v, y.v), ast.Lt: lambda: Lt(x.v, y.v),
             ast.LtE: lambda: Le(x.v, y.v), ast.Gt: lambda: Lt(y.v, x.v), ast.GtE: lambda: Le(y.v, x.v)}[type(op)]()
        if isinstance(op, ast.NotEq):
            return Not(And(ok, f))
        return And(ok, f)
    if isinstance(op, ast.Eq):
        if (a is None) != (b is None):
            return False
        if type(a) is not type(b) and (isinstance(a, str) or isinstance(b, str)):
            return False
    if isinstance(op, ast.NotEq):
        if (a is None) != (b is None):
            return True
        if type(a) is not type(b) and (isinstance(a, str) or isinstance(b, str)):
            return True
    return ex.fbool("cmp")


def set_eq(a, b):
    v, = bvars(1)
    return ForAll([v], as_bool(Eq(as_bool(a.mem(v)), as_bool(b.mem(v)))))


# ====================================================================== attributes & calls
def attr(ex, o, c, name):
    if isinstance(c, ArrV):
        if name == "shape":
            return tuple(c.shape)
        if name == "ndim":
            return c.ndim
        if name == "T":
            if c.ndim == 2:
                rc = c.rowcnt
                r = ex.new(ArrV((c.shape[1], c.shape[0]), lambda i, j: c.get(j, i), c.dtype,
                                src=("T", c)))
                if c.src is not None and c.src[0] == "T":
                    ex.heap[r.id] = c.src[1]
                add_view(ex, r, o)
                return r
            return Opaque("T", alias_base(ex, o))
        if name == "size":
            return ex.fint("size")
        if name in ("dtype", "flat"):
            return Opaque(name, alias_base(ex, o))
        return MethV(o, name)
    if isinstance(c, SeqV):
        if name == "shape":
            return (c.n,)
        if name == "ndim":
            return 1
        if name == "T":
            return o
        if name == "size":
            return c.n
        if name == "dtype":
            return Opaque("dtype")
        return MethV(o, name)
    if isinstance(c, (SetV, DictV, str, tuple)):
        return MethV(o, name)
    if isnum(c):
        return MethV(o, name)
    return MethV(o, name)


def call(ex, f, args, kw):
    star = any(isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], str) and a[0] == "*" for a in args)
    if isinstance(f, MethV):
        return call_method(ex, f.recv, f.name, args, kw, star)
    q = f.qual
    if q.startswith("np."):
        q = "numpy." + q[3:]
    if q in EXTCLS and not star:
        ex.assumptions.add(f"{q}: methods do not modify their arguments; attributes are arbitrary values of the documented shape")
        return ex.new(ObjV(None, {"__ext__": q, "__args__": (len(args), tuple(sorted(kw)))}, False))
    h = EXT.get(q)
    if star and q != "builtins.set.intersection" and h is not None and q not in STAR_OK:
        h = None
    if h is not None:
        r = h(ex, args, kw)
        if r is not NotImplemented:
            return r
    ex.assumptions.add(f"external {q}: arbitrary result, does not modify its arguments or the model")
    al = frozenset()
    if q.startswith("numpy.") or q.startswith("sklearn.utils") or q.startswith("scipy") or q.startswith("copy"):
        al = ex.alias_of(args)
    return Opaque(q.split(".")[-1], al)


EXTCLS = {"sklearn.decomposition.FastICA", "sklearn.linear_model.LinearRegression", "sklearn.linear_model.LassoLarsIC",
          "sklearn.linear_model.LassoLarsCV", "sklearn.linear_model.LassoCV", "sklearn.preprocessing.StandardScaler"}


def ext_attr_of(ex, o, c, name):
    """attribute of an instance of an external class that its model does not define"""
    return MethV(o, name)


def ext_method(ex, recv, c, name, args, kw):
    q = c.attrs["__ext__"].split(".")[-1]
    A = [ex.deref(a) for a in args] + [ex.deref(kw[k]) for k in ("X", "y") if k in kw]
    if name == "fit" and A and isinstance(A[0], ArrV) and A[0].ndim == 2:
        X = A[0]
        a = dict(c.attrs)
        a["fit_X"], a["fit_y"] = X, (A[1] if len(A) > 1 else None)
        if q == "FastICA":
            m, n = X.shape
            a["components_"] = ex.new(ex.fresh_arr([n if _known(ex, as_bool(Le(n, m))) else If(Lt(m, n), m, n), n], "float", "ica"))
            ex.assumptions.add("FastICA.components_ has shape (min(n_samples, n_features), n_features)")
        elif q in ("LinearRegression", "LassoLarsIC", "LassoLarsCV", "LassoCV"):
            if isinstance(a["fit_y"], SeqV):
                if q == "LinearRegression" and a.get("__args__") == (0, ()) and X.src and X.src[0] == "cols" and len(A) == 2:
                    co = SeqV(X.shape[1], fit_cols(ex, X, a["fit_y"]), "arr", "float")
                else:
                    co = SeqV(X.shape[1], ex.family("coef", "float", 1), "arr", "float")
                a["coef_"] = ex.new(co)
                ex.events.append((q + ".fit", X, a["fit_y"], co))
                ex.assumptions.add(f"{q}.coef_ has one entry per column of the fitted matrix")
            else:
                a.pop("coef_", None)
        ex.heap[recv.id] = ObjV(None, a, False)
        return recv
    if name == "fit":
        ex.heap[recv.id] = ObjV(None, {k: c.attrs[k] for k in ("__ext__", "__args__") if k in c.attrs}, False)
        return recv
    if name == "predict" and q == "LinearRegression" and c.attrs.get("__args__") == (0, ()) and len(A) == 1 and \
            isinstance(A[0], ArrV) and A[0].ndim == 2 and isinstance(c.attrs.get("fit_X"), ArrV) and isinstance(c.attrs.get("fit_y"), SeqV):
        for M in (c.attrs["fit_X"], A[0]):
            mat_lemma(ex, M)
        y = c.attrs["fit_y"]
        if hasattr(ex.hints, "vector_families"):
            for ax in ext_lemma(y.get, y.n, ex.hints.vector_families()):
                ex.assume(ax)
        ex.assumptions.add("LinearRegression.predict: a function of the training matrix, the target and the given matrix")
        return ex.new(SeqV(A[0].shape[0], prediction(c.attrs["fit_X"], y, A[0]), "arr", "float"))
    if name == "predict" and A and isinstance(A[0], ArrV):
        return ex.new(SeqV(A[0].shape[0], ex.family("pred", "float", 1), "arr", "float"))
    if name in ("fit_transform", "transform") and q == "StandardScaler" and A and isinstance(A[0], ArrV):
        return ex.new(ex.fresh_arr(A[0].shape, "float", "std"))
    return Opaque(f"{q}.{name}")


def call_method(ex, recv, name, args, kw, star=False):
    c = ex.deref(recv)
    if isinstance(c, ObjV) and "__ext__" in c.attrs:
        return ext_method(ex, recv, c, name, args, kw)
    if isinstance(recv, ExtV):
        return call(ex, ExtV(recv.qual + "." + name), args, kw)
    if isinstance(c, Opaque):
        # method of an external object
        al = c.alias | ex.alias_of(args)
        if name in ("append", "extend", "insert", "add", "update", "remove", "pop", "sort", "fill", "clear",
                    "discard", "setdefault", "reverse"):
            for b in c.alias:
                ex.clobber(b)
        return Opaque(f"{c.tag}.{name}", al)
    A = [ex.deref(a) if not (isinstance(a, tuple) and a and a[0] == "*") else a for a in args]
    if isinstance(c, SeqV) and c.kind in ("list", "tuple", "range"):
        if name == "append":
            ex.write(recv, seq_append(ex, c, ex.note_elem(recv, args[0])))
            return None
        if name == "extend":
            list_extend(ex, recv, args[0])
            return None
        if name == "insert":
            i = A[0]
            x = ex.note_elem(recv, args[1])
            if isinstance(i, int) and i == 0:
                ex.write(recv, seq_insert0(ex, c, x))
            elif _same_term(i, c.n):
                ex.write(recv, seq_append(ex, c, x))
            else:
                a = seq_slice(ex, c, None, i, None)
                b = seq_slice(ex, c, i, None, None)
                ex.write(recv, concat(ex, seq_append(ex, a, x), b))
            return None
        if name == "pop":
            return list_pop(ex, recv, A[0] if A else None)
        if name == "copy":
            return ex.new(c)
        if name == "remove":
            x = A[0]
            if not is_int(x) or c.ety not in ("int", None) or c.mem is None:
                ex.write(recv, ex.fresh(("seq", c.kind, c.ety), "rm"))
                return None
            if not ex.branch(c.has(x)):
                raise RaiseEx("ValueError", True)
            ex.write(recv, seq_delete(ex, c, c.pos(x)))
            return None
        if name == "index":
            x = A[0]
            if is_int(x) and c.mem is not None and len(A) == 1:
                if not ex.branch(c.has(x)):
                    raise RaiseEx("ValueError", True)
                return c.pos(x)
            r = ex.fint("index")
            ex.assume(And(0 <= r, Lt(r, c.n)))
            return r
        if name == "sort":
            if c.kind == "list" and c.ety in ("int", None) and not kw:
                ex.write(recv, sort_seq(ex, c, "list"))
            else:
                ex.write(recv, ex.fresh(("seq", c.kind, c.ety), "sorted", n=c.n))
            return None
        if name == "reverse":
            ex.write(recv, seq_rev(ex, c))
            return None
        if name == "clear":
            ex.write(recv, seq_items([], c.kind))
            return None
        if name == "count":
            r = ex.fint("count")
            ex.assume(r >= 0)
            if c.mem is not None and is_int(A[0]):
                ex.assume(Eq(c.mem(A[0]), Lt(0, r)) if is_term(c.mem(A[0])) else True)
            return r
        return Opaque("list." + name)
    if isinstance(c, SetV):
        if name in ("add", "discard", "remove"):
            x = A[0]
            if not is_int(x):
                ex.write(recv, Opaque("set"))
                return None
            if name == "add":
                new = SetV(lambda v: Or(c.mem(v), Eq(v, x)))
                if c.items is not None and len(c.items) < 3:
                    new = set_of_items(ex, c.items + [x])
                elif c.card is not None:
                    new = SetV(new.mem, If(c.mem(x), c.card, c.card + 1))
                ex.write(recv, new)
            else:
                if name == "remove" and not ex.branch(c.mem(x)):
                    raise RaiseEx("KeyError", True)
                ex.write(recv, SetV(lambda v: And(c.mem(v), Not(Eq(v, x))),
                                    None if c.card is None else If(c.mem(x), c.card - 1, c.card)))
            return None
        if name == "copy":
            return ex.new(c)
        if name in ("union", "intersection", "difference", "symmetric_difference"):
            op = {"union": ast.BitOr(), "intersection": ast.BitAnd(), "difference": ast.Sub(),
                  "symmetric_difference": ast.BitXor()}[name]
            r = c
            for x in A:
                s = to_set(ex, x)
                if isinstance(s, Opaque):
                    return ex.new(ex.fresh(("set",), "set"))
                r = set_op(ex, op, r, s)
            return ex.new(r)
        if name in ("update", "difference_update", "intersection_update"):
            op = {"update": ast.BitOr(), "difference_update": ast.Sub(), "intersection_update": ast.BitAnd()}[name]
            r = c
            for x in A:
                s = to_set(ex, x)
                if isinstance(s, Opaque):
                    ex.write(recv, ex.fresh(("set",), "set"))
                    return None
                r = set_op(ex, op, r, s)
            ex.write(recv, r)
            return None
        if name == "issubset":
            s = to_set(ex, A[0])
            v, = bvars(1)
            if isinstance(s, Opaque):
                return ex.fbool("sub")
            return ForAll([v], Implies(c.mem(v), s.mem(v)))
        if name == "issuperset":
            s = to_set(ex, A[0])
            v, = bvars(1)
            if isinstance(s, Opaque):
                return ex.fbool("sub")
            return ForAll([v], Implies(s.mem(v), c.mem(v)))
        if name == "isdisjoint":
            s = to_set(ex, A[0])
            v, = bvars(1)
            if isinstance(s, Opaque):
                return ex.fbool("disj")
            return ForAll([v], Not(And(s.mem(v), c.mem(v))))
        if name == "pop":
            if not ex.branch(Lt(0, ex.card(c))):
                raise RaiseEx("KeyError", True)
            x = ex.fint("pop")
            ex.assume(c.mem(x))
            ex.write(recv, SetV(lambda v: And(c.mem(v), Not(Eq(v, x)))))
            return x
        return Opaque("set." + name)
    if isinstance(c, DictV):
        if name == "keys":
            if c.cd is not None:
                return tuple(c.cd)
            return SetV(c.has)
        if name == "values":
            if c.cd is not None:
                return IterV(len(c.cd), None, items=[ex.elem_ref(recv, k) if not isinstance(c.cd[k], Ref) else c.cd[k] for k in c.cd])
            ks = ex.set_to_seq(SetV(c.has))
            return IterV(ks.n, lambda e, k: e.elem_ref(recv, ks.get(k)))
        if name == "items":
            if c.cd is not None:
                return IterV(len(c.cd), None, items=[(k, ex.elem_ref(recv, k) if not isinstance(c.cd[k], Ref) else c.cd[k]) for k in c.cd])
            ks = ex.set_to_seq(SetV(c.has))
            return IterV(ks.n, lambda e, k: (ks.get(k), e.elem_ref(recv, ks.get(k))))
        if name == "get":
            k = A[0]
            dflt = args[1] if len(args) > 1 else None
            has = contains(ex, c, k)
            if ex.branch(has):
                return load(ex, recv, k)
            return dflt
        if name == "setdefault":
            k = A[0]
            has = contains(ex, c, k)
            if not ex.branch(has):
                store(ex, recv, k, args[1] if len(args) > 1 else None)
            return load(ex, recv, k)
        if name == "copy":
            return ex.new(c)
        if name in ("update", "pop", "clear", "popitem"):
            ex.write(recv, Opaque("dict"))
            return Opaque("dict." + name)
        return Opaque("dict." + name)
    if isinstance(c, (ArrV, SeqV)):
        return arr_method(ex, recv, c, name, args, A, kw)
    if isinstance(c, str):
        return Opaque("str." + name)
    if isinstance(c, tuple):
        if name == "index" and all(is_int(ex.deref(x)) for x in c):
            s = seq_items([ex.deref(x) for x in c], "tuple")
            if not ex.branch(s.has(A[0])):
                raise RaiseEx("ValueError", True)
            return s.pos(A[0])
        return Opaque("tuple." + name)
    if isnum(c):
        if name in ("item", "tolist"):
            return c
        if name == "astype":
            return Opaque("astype") if not is_int(c) else c
        return Opaque("num." + name)
    if c is None:
        raise RaiseEx("AttributeError", True)
    if isinstance(c, Opt):
        if ex.branch(c.isnone):
            raise RaiseEx("AttributeError", True)
        return call_method(ex, c.val, name, args, kw)
    return Opaque(name)


def sort_seq(ex, c, kind):
    if c.items is not None and all(isinstance(x, int) for x in c.items):
        return seq_items(sorted(c.items), kind)
    if c.mem is None:
        c = ex.with_mem(c)
    r = ex.fresh(("seq", kind, "int"), "sorted", n=c.n)
    v, i, j = bvars(3)
    ex.assume(ForAll([v], r.mem(v) == as_bool(c.mem(v)), [r.mem(v)]))
    ex.assume(ForAll([i], Implies(And(0 <= i, i < r.n), c.mem(r.get(i))), [r.get(i)]))
    ex.assume(ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < r.n), r.get(i) <= r.get(j)),
                     [z3.MultiPattern(r.get(i), r.get(j))]))
    if c.distinct is not None:
        ex.assume(Implies(c.distinct, r.distinct))
    return SeqV(c.n, r.get, kind, "int", c.mem, r.pos, c.distinct)


def arr_method(ex, recv, c, name, args, A, kw):
    if name == "copy":
        return ex.new(c)
    if name == "astype":
        t = args[0] if args else None
        dt = dtype_of(ex, t)
        cur = c.dtype if isinstance(c, ArrV) else c.ety
        if dt == cur:
            return ex.new(c)
        if dt == "float" and cur in ("int", "bool"):
            return map1(ex, to_fl, c, "float")
        if dt == "int" and cur == "bool":
            return map1(ex, lambda x: If(x, 1, 0), c, "int")
        return Opaque("astype")
    if name == "tolist":
        if isinstance(c, SeqV):
            return ex.new(c.with_kind("list"))
        if c.ndim == 2:
            return ex.new(SeqV(c.shape[0], lambda i: SeqV(c.shape[1], lambda j: c.get(i, j), "list", c.dtype),
                               "list", ("seq", "list", c.dtype)))
        return ex.new(Opaque("list"))
    if name == "dot" and len(A) == 1:
        return np_dot(ex, [recv, args[0]], {})
    if name == "reshape":
        return np_reshape(ex, [recv] + list(args), kw)
    if name in ("transpose",) and isinstance(c, ArrV) and not A and c.ndim == 2:
        return attr(ex, recv, c, "T")
    if name in ("flatten", "ravel") and isinstance(c, SeqV):
        return ex.new(c)
    if name == "any":
        if kw or A:
            return Opaque("any")
        return np_any(ex, c)
    if name == "all":
        if kw or A:
            return Opaque("all")
        return np_all(ex, c)
    if name == "sum":
        return np_sum(ex, [recv] + list(args), kw)
    if name in ("argmax", "argmin") and not A and not kw and isinstance(c, SeqV):
        return np_argm(ex, [recv], {})
    if name == "fill":
        dt = c.dtype if isinstance(c, ArrV) else c.ety
        x = ex.coerce(A[0], dt)
        if isinstance(c, ArrV):
            ex.write(recv, ArrV(c.shape, lambda *i: x, dt))
        else:
            ex.write(recv, SeqV(c.n, lambda i: x, "arr", dt) if dt != "int" else ex.with_mem(SeqV(c.n, lambda i: x, "arr", dt)))
        return None
    if name in ("sort", "partition", "resize", "put", "itemset", "byteswap"):
        if isinstance(c, ArrV):
            ex.write(recv, ArrV(c.shape, ex.family(name, c.dtype, c.ndim), c.dtype))
        elif c.ety == "int":
            ex.write(recv, sort_seq(ex, c, "arr") if name == "sort" else ex.fresh(("seq", "arr", c.ety), name, n=c.n))
        else:
            ex.write(recv, ex.fresh(("seq", "arr", c.ety), name, n=c.n))
        return None
    if name == "item" and isinstance(c, SeqV):
        return c.get(0)
    if name in ("mean", "std", "var", "max", "min", "prod", "cumsum", "dot", "argsort", "nonzero", "round"):
        if name == "nonzero" and isinstance(c, SeqV):
            return (ex.new(where1(ex, truthy_seq(ex, c))),)
        return Opaque(name)
    return Opaque("arr." + name, alias_base(ex, recv))


def truthy_seq(ex, c):
    if c.ety == "bool":
        return c
    if c.ety == "int":
        return SeqV(c.n, lambda i: Not(Eq(c.get(i), 0)), "arr", "bool")
    if c.ety == "float":
        return SeqV(c.n, lambda i: c.get(i).nonzero(), "arr", "bool")
    return SeqV(c.n, ex.family("truthy", "bool", 1), "arr", "bool")


def dtype_of(ex, t):
    if t is None:
        return None
    if isinstance(t, str):
        if t.startswith(("float", "f8")):
            return "float"
        if t.startswith(("int", "uint", "i8")):
            return "int"
        if t == "bool":
            return "bool"
        return "opaque"
    if isinstance(t, ExtV):
        n = t.qual.split(".")[-1]
        if n.startswith("float"):
            return "float"
        if n.startswith(("int", "uint")):
            return "int"
        if n.startswith("bool"):
            return "bool"
    return "opaque"


# ---------------------------------------------------------------- numpy functions
def shape_arg(ex, v):
    v = ex.deref(v)
    if is_int(v):
        return [v]
    if isinstance(v, tuple):
        s = [ex.deref(x) for x in v]
    elif isinstance(v, SeqV) and v.items is not None:
        s = [ex.deref(x) for x in v.items]
    else:
        return None
    if all(is_int(x) for x in s):
        return s
    return None


def mk_full(ex, shape, x, dt):
    if shape is None:
        return Opaque("array")
    for d in shape:
        if is_term(d):
            if not _known(ex, Le(0, d)):
                if not ex.branch(Le(0, d)):
                    raise RaiseEx("ValueError", True)
    if len(shape) == 0:
        return x
    if len(shape) == 1:
        s = SeqV(shape[0], lambda i: x, "arr", dt)
        return ex.new(ex.with_mem(s) if dt == "int" else s)
    return ex.new(ArrV(shape, lambda *i: x, dt))


def np_zeros(ex, args, kw, val=0):
    sh = shape_arg(ex, args[0] if args else kw.get("shape"))
    dt = dtype_of(ex, kw.get("dtype", args[1] if len(args) > 1 else None)) or "float"
    if dt == "opaque":
        return Opaque("zeros")
    x = {"float": Fl(float(val)), "int": val, "bool": bool(val)}[dt]
    return mk_full(ex, sh, x, dt)


def np_full(ex, args, kw):
    sh = shape_arg(ex, args[0])
    v = ex.deref(args[1] if len(args) > 1 else kw.get("fill_value"))
    dt = dtype_of(ex, kw.get("dtype"))
    if is_bool(v):
        return mk_full(ex, sh, v, "bool") if dt in (None, "bool") else Opaque("full")
    if is_int(v) and dt in (None, "int"):
        return mk_full(ex, sh, v, "int")
    if isnum(v):
        return mk_full(ex, sh, to_fl(v), "float")
    return Opaque("full") if sh is None else ex.new(ex.fresh_arr(sh, "float", "full")) if len(sh) > 1 else Opaque("full")


def np_zeros_like(ex, args, kw, val=0):
    c = ex.deref(args[0])
    dt = dtype_of(ex, kw.get("dtype", args[1] if len(args) > 1 else None))
    if isinstance(c, ArrV):
        d = dt or c.dtype
        if d == "opaque":
            d = "float"
        return mk_full(ex, list(c.shape), {"float": Fl(float(val)), "int": val, "bool": bool(val)}[d], d)
    if isinstance(c, SeqV):
        d = dt or (c.ety if c.ety in ("int", "float", "bool") else "float")
        return mk_full(ex, [c.n], {"float": Fl(float(val)), "int": val, "bool": bool(val)}[d], d)
    return Opaque("zeros_like")


def np_empty(ex, args, kw):
    sh = shape_arg(ex, args[0])
    dt = dtype_of(ex, kw.get("dtype", args[1] if len(args) > 1 else None)) or "float"
    if sh is None or dt == "opaque":
        return Opaque("empty")
    if len(sh) == 1:
        return ex.new(ex.fresh(("seq", "arr", dt), "empty", n=sh[0]))
    return ex.new(ex.fresh_arr(sh, dt, "empty"))


def np_arange(ex, args, kw):
    a = [ex.deref(x) for x in args]
    if not all(is_int(x) for x in a):
        return Opaque("arange")
    if len(a) == 1:
        s = seq_range(0, a[0], "arr")
    elif len(a) == 2:
        s = seq_range(a[0], a[1], "arr")
    else:
        return Opaque("arange")
    return ex.new(s)


def np_array(ex, args, kw):
    c = ex.deref(args[0])
    dt = dtype_of(ex, kw.get("dtype", args[1] if len(args) > 1 else None))
    if isinstance(c, ArrV):
        if dt not in (None, c.dtype):
            return arr_method(ex, args[0], c, "astype", [kw.get("dtype", args[1] if len(args) > 1 else None)], [], {})
        return ex.new(c)
    if isinstance(c, tuple) and len(c) == 2 and all(isinstance(x, Ref) for x in c):
        r = getattr(ex, "where2", {}).get((c[0].id, c[1].id))
        if r is not None:
            return ex.new(ArrV((2, r.shape[0]), lambda i, j: r.get(j, i), "int", src=("T", r)))
    if isinstance(c, tuple):
        c = seq_items([ex.deref(x) for x in c], "list")
    if isinstance(c, SeqV):
        if c.ety in ("int", "float", "bool"):
            r = c.with_kind("arr")
            if dt not in (None, c.ety):
                return arr_method(ex, None, r, "astype", [kw.get("dtype", args[1] if len(args) > 1 else None)], [], {})
            return ex.new(r)
        if isinstance(c.n, int) and c.n == 0:
            return ex.new(SeqV(0, c.get, "arr", "float" if dt is None else dt, c.mem, c.pos, True, []))
        if isinstance(c.ety, tuple) and c.ety[0] == "seq" and c.ety[2] in ("int", "float", "bool"):
            inner = c.get(0) if c.items is not None else c.get(z3.Int("probe!0"))
            n2 = inner.n
            if isinstance(n2, int) or (is_term(n2) and "probe!0" not in str(n2)):
                return ex.new(ArrV((c.n, n2), lambda i, j: c.get(i).get(j), c.ety[2]))
        if isinstance(c.ety, tuple) and c.ety[0] == "arr" and c.ety[2] in ("int", "float", "bool"):
            p = c.get(0) if c.items is not None else c.get(z3.Int("probe!0"))
            if all("probe!0" not in str(x) for x in p.shape):
                return ex.new(ArrV((c.n,) + tuple(p.shape), lambda i, *r: c.get(i).get(*r), c.ety[2]))
        return Opaque("array")
    if isnum(c):
        return c
    return Opaque("array")


def np_where(ex, args, kw):
    if len(args) == 3:
        c, a, b = [ex.deref(x) for x in args]
        if isinstance(c, Opaque):
            return Opaque("where")
        if is_bool(c):
            return merge(c, a, b)
        if isinstance(c, (ArrV, SeqV)):
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                return Opaque("where")
            t = elementwise(ex, lambda x, y: (x, y) and merge(x, y, y) if False else y, c, a) if False else None
            return where3(ex, c, a, b)
        return Opaque("where")
    c = ex.deref(args[0])
    if isinstance(c, SeqV):
        return (ex.new(where1(ex, truthy_seq(ex, c))),)
    if isinstance(c, ArrV) and c.ndim == 2 and c.dtype == "bool":
        r = rows_where(ex, c)
        return Where2(ex, c, r)
    if isinstance(c, ArrV) and c.ndim == 2 and c.dtype in ("int", "float"):
        m = ArrV(c.shape, lambda i, j: Not(Eq(c.get(i, j), 0)) if c.dtype == "int" else c.get(i, j).nonzero(), "bool")
        return Where2(ex, m, rows_where(ex, m))
    return Opaque("where")


def Where2(ex, mask, rows):
    a = SeqV(rows.shape[0], lambda t: rows.get(t, 0), "arr", "int")
    b = SeqV(rows.shape[0], lambda t: rows.get(t, 1), "arr", "int")
    ra, rb = ex.new(ex.with_mem(a)), ex.new(ex.with_mem(b))
    ex.events.append(("where2", ra.id, rb.id, rows))
    ex.where2 = getattr(ex, "where2", {})
    ex.where2[(ra.id, rb.id)] = rows
    return (ra, rb)


def where3(ex, c, a, b):
    nd = lambda x: x.ndim if isinstance(x, ArrV) else (1 if isinstance(x, SeqV) else 0)
    n = nd(c)
    if any(nd(x) not in (0, n) for x in (a, b)):
        return Opaque("where")
    at = lambda x, i: x.get(*i) if nd(x) else x
    dt = "int"
    for x in (a, b):
        e = x.dtype if isinstance(x, ArrV) else (x.ety if isinstance(x, SeqV) else ety_of(x))
        if e == "float":
            dt = "float"
        elif e not in ("int", "bool"):
            return Opaque("where")
    cd = c.dtype if isinstance(c, ArrV) else c.ety
    if cd != "bool":
        return Opaque("where")
    g = lambda *i: merge(c.get(*i), ex.coerce(at(a, i), dt), ex.coerce(at(b, i), dt))
    if n == 1:
        s = SeqV(c.n, lambda i: g(i), "arr", dt)
        return ex.new(ex.with_mem(s) if dt == "int" else s)
    return ex.new(ArrV(c.shape, g, dt))


def np_abs(ex, args, kw):
    c = ex.deref(args[0])

    def f(x):
        if is_int(x):
            return abs(x) if isinstance(x, int) else z3.If(x >= 0, x, -x)
        if isinstance(x, float):
            return abs(x)
        if isinstance(x, Fl):
            return Fl(z3.If(x.v >= 0, x.v, -x.v), x.nan)
        if is_bool(x):
            return If(x, 1, 0)
        return Opaque("abs")
    if isinstance(c, (ArrV, SeqV)):
        return map1(ex, f, c)
    return f(c)


def np_isnan(ex, args, kw):
    c = ex.deref(args[0])
    f = lambda x: x.nan if isinstance(x, Fl) else (x != x if isinstance(x, float) else False)
    if isinstance(c, ArrV):
        if c.dtype == "float":
            return ex.new(ArrV(c.shape, lambda *i: f(c.get(*i)), "bool"))
        return Opaque("isnan")
    if isinstance(c, SeqV):
        if c.ety == "float":
            return ex.new(SeqV(c.n, lambda i: f(c.get(i)), "arr", "bool"))
        return Opaque("isnan")
    if isinstance(c, Opaque):
        return Opaque("isnan")
    return f(c)


def np_nan_to_num(ex, args, kw):
    c = ex.deref(args[0])
    if kw or len(args) > 1:
        return Opaque("nan_to_num")
    f = lambda x: Fl(If(x.nan, z3.RealVal(0), x.v), False) if isinstance(x, Fl) else x
    if isinstance(c, ArrV) and c.dtype in ("float", "int"):
        return ex.new(ArrV(c.shape, lambda *i: f(c.get(*i)), c.dtype))
    if isinstance(c, SeqV) and c.ety == "float":
        return ex.new(SeqV(c.n, lambda i: f(c.get(i)), "arr", "float"))
    if isinstance(c, Fl):
        return f(c)
    return Opaque("nan_to_num")


def np_fill_diagonal(ex, args, kw):
    r = args[0]
    c = ex.deref(r)
    v = ex.deref(args[1])
    if isinstance(c, ArrV) and c.ndim == 2 and isnum(v):
        if c.dtype == "int" and not is_int(v):
            ex.write(r, ArrV(c.shape, ex.family("fd", "int", 2), "int"))
            return None
        x = ex.coerce(v, c.dtype) if c.dtype != "opaque" else v
        if c.dtype == "opaque":
            return None
        ex.write(r, ArrV(c.shape, lambda i, j: merge(Eq(i, j), x, c.get(i, j)), c.dtype))
        return None
    ex.write(r, ArrV(c.shape, ex.family("fd", c.dtype, c.ndim), c.dtype) if isinstance(c, ArrV) else c)
    if isinstance(c, Opaque):
        for b in c.alias:
            ex.clobber(b)
    return None


def np_argm(ex, args, kw):
    c = ex.deref(args[0])
    if kw or len(args) > 1:
        return Opaque("arg")
    if isinstance(c, SeqV) and not isinstance(c.ety, tuple):
        if not ex.branch(Lt(0, c.n)):
            raise RaiseEx("ValueError", True)
        r = ex.fint("arg")
        ex.assume(And(0 <= r, Lt(r, c.n)))
        return r
    if isinstance(c, Opaque):
        r = ex.fint("arg")
        ex.assume(r >= 0)
        return r
    return Opaque("arg")


def np_any(ex, c):
    if isinstance(c, SeqV):
        m = truthy_seq(ex, c)
        q, = bvars(1)
        return Exists([q], And(0 <= q, Lt(q, c.n), m.get(q)))
    if isinstance(c, ArrV) and c.ndim == 2 and c.dtype == "bool":
        q, p = bvars(2)
        return Exists([q, p], And(0 <= q, Lt(q, c.shape[0]), 0 <= p, Lt(p, c.shape[1]), c.get(q, p)))
    return ex.fbool("any")


def np_all(ex, c):
    if isinstance(c, SeqV):
        m = truthy_seq(ex, c)
        q, = bvars(1)
        return ForAll([q], Implies(And(0 <= q, Lt(q, c.n)), m.get(q)))
    if isinstance(c, ArrV) and c.ndim == 2 and c.dtype == "bool":
        q, p = bvars(2)
        return ForAll([q, p], Implies(And(0 <= q, Lt(q, c.shape[0]), 0 <= p, Lt(p, c.shape[1])), c.get(q, p)))
    return ex.fbool("all")


SUM = z3.Function("SUM", VEC, R)
SUMN = z3.Function("SUM_NAN", VEC, BS)


def fsum(f, n):
    x = lam(f, n)
    return Fl(SUM(x), SUMN(x))


def np_sum(ex, args, kw):
    c = ex.deref(args[0])
    axis = ex.deref(kw.get("axis", args[1] if len(args) > 1 else None))
    keep = kw.get("keepdims", False)
    if isinstance(c, SeqV) and axis in (None, 0) and keep is False:
        if c.ety == "bool":
            r = ex.fint("cnt")
            q, = bvars(1)
            w = ex.fint("cntw")
            ex.assume(And(0 <= r, Le(r, c.n)))
            ex.assume(Implies(r > 0, And(0 <= w, Lt(w, c.n), c.get(w))))
            ex.assume(ForAll([q], Implies(And(0 <= q, Lt(q, c.n), c.get(q)), r > 0)))
            return r
        if c.ety == "float":
            r = fsum(c.get, c.n)
            q, = bvars(1)
            # the sum is NaN iff some summand is NaN; a sum of non-negative terms is zero iff all are zero
            ex.assume(ForAll([q], Implies(And(0 <= q, Lt(q, c.n), c.get(q).nan), r.nan)))
            nonneg = ForAll([q], Implies(And(0 <= q, Lt(q, c.n)), And(Not(c.get(q).nan), c.get(q).v >= 0)))
            allz = ForAll([q], Implies(And(0 <= q, Lt(q, c.n)), Eq(c.get(q).v, z3.RealVal(0))))
            ex.assume(Implies(nonneg, And(Not(r.nan), r.v >= 0, Eq(as_bool(Eq(r.v, z3.RealVal(0))), as_bool(allz)))))
            return r
        if c.ety == "int":
            r = ex.fint("sum")
            q, = bvars(1)
            nonneg = ForAll([q], Implies(And(0 <= q, Lt(q, c.n)), c.get(q) >= 0))
            allz = ForAll([q], Implies(And(0 <= q, Lt(q, c.n)), Eq(c.get(q), 0)))
            ex.assume(Implies(nonneg, And(r >= 0, Eq(as_bool(r == 0), as_bool(allz)))))
            return r
        return Opaque("sum")
    if isinstance(c, ArrV) and c.ndim == 2 and is_int(axis) and isinstance(axis, int) and c.dtype in ("float",) and keep is False:
        ax = axis % 2
        other = 1 - ax
        n = c.shape[other]
        m = c.shape[ax]
        at = (lambda i_, q_: c.get(q_, i_)) if ax == 0 else (lambda i_, q_: c.get(i_, q_))
        f = lambda i_: fsum(lambda q_: at(i_, q_), m)
        i, q = bvars(2)
        rng = lambda q_: And(Le(0, q_), Lt(q_, m))
        ex.assume(ForAll([i, q], Implies(And(rng(q), at(i, q).nan), f(i).nan)))
        nonneg = ForAll([q], Implies(rng(q), And(Not(at(i, q).nan), at(i, q).v >= 0)))
        allz = ForAll([q], Implies(rng(q), Eq(at(i, q).v, z3.RealVal(0))))
        ex.assume(ForAll([i], Implies(nonneg, And(Not(f(i).nan), f(i).v >= 0,
                                                  Eq(as_bool(Eq(f(i).v, z3.RealVal(0))), as_bool(allz))))))
        return ex.new(SeqV(n, lambda t: f(as_int(t)), "arr", "float"))
    return Opaque("sum")


def np_delete(ex, args, kw):
    c = ex.deref(args[0])
    i = ex.deref(args[1])
    if isinstance(c, SeqV) and is_int(i):
        return ex.new(seq_delete(ex, c, norm_idx(ex, i, c.n)).with_kind("arr"))
    return Opaque("delete")


def np_copy(ex, args, kw):
    c = ex.deref(args[0])
    if isinstance(c, (ArrV, SeqV)):
        return ex.new(c if isinstance(c, ArrV) else c.with_kind("arr"))
    return Opaque("copy")


def np_concatenate(ex, args, kw):
    c = ex.deref(args[0])
    ax = kw.get("axis", args[1] if len(args) > 1 else 0)
    items = None
    if isinstance(c, tuple):
        items = [ex.deref(x) for x in c]
    elif isinstance(c, SeqV) and c.items is not None:
        items = [ex.deref(x) for x in c.items]
    if items is None or ax not in (0, None):
        return Opaque("concatenate")
    if all(isinstance(x, SeqV) for x in items):
        r = items[0].with_kind("arr")
        for x in items[1:]:
            r = concat(ex, r, x.with_kind("arr"))
        return ex.new(r)
    if all(isinstance(x, ArrV) and x.ndim == 2 for x in items):
        r = items[0]
        for x in items[1:]:
            a, b = r, x
            rc = None
            if a.rowcnt and b.rowcnt:
                rc = (lambda p, q: lambda u, v: p(u, v) + q(u, v))(a.rowcnt, b.rowcnt)
            r = ArrV((a.shape[0] + b.shape[0], a.shape[1]),
                     (lambda a, b: lambda i, j: merge(Lt(i, a.shape[0]), a.get(i, j), b.get(i - a.shape[0], j)))(a, b),
                     join_ty(a.dtype, b.dtype), rowcnt=rc)
        if r.rowcnt is not None:
            link_rows(ex, r)
        return ex.new(r)
    return Opaque("concatenate")


def np_unique(ex, args, kw):
    c = ex.deref(args[0])
    rcounts = kw.get("return_counts", False) is True
    others = [k for k in kw if k not in ("return_counts", "axis")]
    if isinstance(c, ArrV) and c.rowcnt is not None and ex.deref(kw.get("axis")) == 0 and not others:
        rc = c.rowcnt
        n = ex.fint("nuniq")
        ex.assume(n >= 0)
        g = ex.ffun("uniq", I, I, I)
        i, = bvars(1)
        u = ArrV((n, 2), lambda a, b: g(as_int(a), as_int(b)), "int",
                 rowcnt=lambda a, b: If(Lt(0, rc(a, b)), 1, 0))
        ex.assume(ForAll([i], z3.Implies(z3.And(0 <= i, i < n), as_bool(Lt(0, rc(g(i, 0), g(i, 1))))), [g(i, 0)]))
        link_rows(ex, u)
        ru = ex.new(u)
        if not rcounts:
            return ru
        cnt = SeqV(n, lambda t: rc(g(as_int(t), 0), g(as_int(t), 1)), "arr", "int",
                   src=("rowfn", u, rc))
        return (ru, ex.new(CountSeq(cnt, u, rc)))
    if isinstance(c, SeqV) and c.ety == "int" and not kw:
        s = sort_seq(ex, ex.set_to_seq(SetV(c.has)), "arr")
        return ex.new(s)
    if rcounts:
        return (Opaque("unique"), Opaque("counts"))
    return Opaque("unique")


def CountSeq(s, u, rc):
    s.pred = None
    s.src = ("rowfn", u, rc)
    return s


def check_array(ex, args, kw):
    r = args[0]
    c = ex.deref(r)
    ex.assumptions.add("sklearn.utils.check_array: returns its argument unchanged (possibly the same object) or raises")
    if isinstance(c, (ArrV, SeqV)):
        return r if isinstance(r, (Ref, ElemRef)) else ex.new(c)
    if isinstance(c, Opaque):
        return Opaque("check_array", c.alias)
    return Opaque("check_array")


def check_scalar(ex, args, kw):
    ex.assumptions.add("sklearn.utils.check_scalar: returns its argument unchanged, or raises TypeError for another type "
                       "and ValueError for a value outside the given bounds")
    v = ex.deref(args[0])
    A = list(args) + [None] * 3
    tt = kw.get("target_type", A[2])
    if tt is not None and not ex.branch(ex.truth(py_isinstance(ex, [args[0], tt], {}))):
        raise RaiseEx("TypeError")
    mn = ex.deref(kw.get("min_val"))
    mx = ex.deref(kw.get("max_val"))
    inc = ex.deref(kw.get("include_boundaries", "both"))
    if not isinstance(inc, str) or not isnum(v):
        return args[0]
    for lim, right in ((mn, False), (mx, True)):
        if lim is None or not isnum(lim):
            continue
        strict = inc == "neither" or inc == ("left" if right else "right")
        op = (ast.GtE() if strict else ast.Gt()) if right else (ast.LtE() if strict else ast.Lt())
        if ex.branch(ex.truth(cmp(ex, op, v, lim))):
            raise RaiseEx("ValueError")
    return args[0]


def np_ix(ex, args, kw):
    seqs = [ex.deref(a) for a in args]
    if all(isinstance(s, SeqV) for s in seqs):
        return IxV(seqs)
    return Opaque("ix")


def py_len(ex, args, kw):
    c = ex.deref(args[0])
    if isinstance(c, Opt):
        if ex.branch(c.isnone):
            raise RaiseEx("TypeError", True)
        c = ex.deref(c.val)
    if isinstance(c, (tuple, str)):
        return len(c)
    if isinstance(c, SeqV):
        return c.n
    if isinstance(c, ArrV):
        return c.shape[0]
    if isinstance(c, SetV):
        n = ex.card(c)
        if c.card is None and isinstance(args[0], Ref):
            ex.heap[args[0].id] = SetV(c.mem, n, c.items)
        return n
    if isinstance(c, DictV):
        if c.cd is not None:
            return len(c.cd)
        r = ex.fint("len")
        ex.assume(r >= 0)
        return r
    if c is None or isnum(c):
        raise RaiseEx("TypeError", True)
    r = ex.fint("len")
    ex.assume(r >= 0)
    return r


def py_range(ex, args, kw):
    a = [ex.deref(x) for x in args]
    if not all(is_int(x) for x in a):
        n = ex.fint("n")
        ex.assume(n >= 0)
        if len(a) == 1:
            return seq_range(0, n)
        if len(a) == 2 and is_int(a[0]):
            return seq_range(a[0], a[0] + n)
        return Opaque("range")
    if len(a) == 1:
        return seq_range(0, a[0])
    if len(a) == 2:
        return seq_range(a[0], a[1])
    if isinstance(a[2], int) and a[2] == -1:
        lo, hi = a[0], a[1]
        n = If(Lt(hi, lo), lo - hi, 0)
        return SeqV(n, lambda i: lo - i, "range", "int", lambda v: And(Lt(hi, v), Le(v, lo)), lambda v: lo - v, True)
    if all(isinstance(x, int) for x in a):
        return seq_items(list(range(*a)), "range")
    n = ex.fint("n")
    ex.assume(n >= 0)
    st = a[2]
    if isinstance(st, int) and st > 0:
        ex.assume(Implies(n > 0, And(Lt(a[0] + (n - 1) * st, a[1]), Le(a[1], a[0] + n * st))))
        ex.assume(Implies(n == 0, Le(a[1], a[0])))
        return ex.with_mem(SeqV(n, lambda i: a[0] + i * st, "range", "int"))
    return Opaque("range")


def py_enumerate(ex, args, kw):
    it = iterate(ex, args[0])
    start = ex.deref(args[1] if len(args) > 1 else kw.get("start", 0))
    if it.items is not None:
        return IterV(it.n, None, items=[(start + i, x) for i, x in enumerate(it.items)])
    r = IterV(it.n, lambda e, k: (start + k if not (isinstance(start, int) and start == 0) else k, it.elem(e, k)))
    r.seq = it.seq
    return r


def py_zip(ex, args, kw):
    its = [iterate(ex, a) for a in args]
    if all(i.items is not None for i in its):
        return IterV(0, None, items=list(zip(*[i.items for i in its])))

    def el(it):
        if it.items is not None:
            s = it.items
            if all(isnum(ex.deref(x)) for x in s):
                q = seq_items([ex.deref(x) for x in s], "tuple")
                return lambda e, k: q.get(k)
            return lambda e, k: Opaque("zip")
        return it.elem
    n = None
    els = [el(i) for i in its]
    ns = [i.n if i.items is None else len(i.items) for i in its]
    n = ns[0]
    for m in ns[1:]:
        if not _same_term(n, m):
            n = If(Le(n, m), n, m)
    r = IterV(n, lambda e, k: tuple(f(e, k) for f in els))
    r.seq = next((i.seq for i in its if i.seq is not None and _same_term(i.n, n)), None)
    return r


def py_list(ex, args, kw):
    if not args:
        return ex.new(seq_items([], "list"))
    c = ex.deref(args[0])
    if isinstance(c, Opaque):
        return ex.new(Opaque("list"))
    return ex.new(to_seq(ex, c, "list"))


def py_tuple(ex, args, kw):
    if not args:
        return ()
    c = ex.deref(args[0])
    if isinstance(c, tuple):
        return c
    if isinstance(c, Opaque):
        return Opaque("tuple")
    s = to_seq(ex, c, "tuple")
    if s.items is not None:
        return tuple(s.items)
    return s


def py_set(ex, args, kw):
    if not args:
        return ex.new(set_of_items(ex, []))
    c = ex.deref(args[0])
    s = to_set(ex, c)
    if isinstance(s, Opaque):
        return ex.new(ex.fresh(("set",), "set"))
    return ex.new(s)


def py_sorted(ex, args, kw):
    c = ex.deref(args[0])
    if isinstance(c, Opaque):
        return ex.new(Opaque("sorted"))
    if isinstance(c, IterV):
        return ex.new(Opaque("sorted"))
    s = to_seq(ex, c, "list")
    if s.ety in ("int", None) and not kw:
        return ex.new(sort_seq(ex, s, "list"))
    if s.ety == "int":
        r = sort_seq(ex, s, "list")
        if set(kw) <= {"reverse", "key"}:
            r2 = ex.fresh(("seq", "list", "int"), "sorted", n=s.n)
            v, = bvars(1)
            ex.assume(ForAll([v], r2.mem(v) == as_bool(s.has(v)), [r2.mem(v)]))
            if s.distinct is not None:
                ex.assume(Implies(s.distinct, r2.distinct))
            return ex.new(SeqV(s.n, r2.get, "list", "int", s.mem or r2.mem, r2.pos, s.distinct if s.distinct is not None else r2.distinct))
    return ex.new(ex.fresh(("seq", "list", s.ety), "sorted", n=s.n))


def py_minmax(ex, args, kw, mx):
    if len(args) == 2:
        a, b = ex.deref(args[0]), ex.deref(args[1])
        if is_int(a) and is_int(b):
            return If(Lt(a, b), b, a) if mx else If(Lt(b, a), b, a)
        if isnum(a) and isnum(b):
            return ex.ffl("mm")
        return Opaque("mm")
    if len(args) == 1:
        c = ex.deref(args[0])
        if isinstance(c, SeqV) and c.ety == "int" and not kw:
            if not ex.branch(Lt(0, c.n)):
                raise RaiseEx("ValueError", True)
            r = ex.fint("mm")
            v, = bvars(1)
            ex.assume(c.has(r))
            ex.assume(ForAll([v], Implies(c.has(v), Le(v, r) if mx else Le(r, v))))
            return r
        if isinstance(c, SetV) and not kw:
            if not ex.branch(Lt(0, ex.card(c))):
                raise RaiseEx("ValueError", True)
            r = ex.fint("mm")
            v, = bvars(1)
            ex.assume(c.mem(r))
            ex.assume(ForAll([v], Implies(c.mem(v), Le(v, r) if mx else Le(r, v))))
            return r
        if isinstance(c, SeqV) and c.ety == "int" and "key" in kw:
            if not ex.branch(Lt(0, c.n)):
                raise RaiseEx("ValueError", True)
            r = ex.fint("mm")
            ex.assume(c.has(r))
            return r
    return Opaque("mm")


def py_abs(ex, args, kw):
    return np_abs(ex, args, kw)


def py_int(ex, args, kw):
    if not args:
        return 0
    v = ex.deref(args[0])
    if is_int(v):
        return v
    if is_bool(v):
        return If(v, 1, 0)
    if isinstance(v, float):
        return int(v)
    return ex.fint("int")


def py_float(ex, args, kw):
    v = ex.deref(args[0]) if args else 0.0
    if isnum(v):
        return to_fl(v)
    if isinstance(v, str):
        try:
            return float(v)
        except ValueError:
            raise RaiseEx("ValueError", True)
    return ex.ffl("float")


def py_bool(ex, args, kw):
    return ex.truth(args[0]) if args else False


def py_isinstance(ex, args, kw):
    v = ex.deref(args[0])
    t = ex.deref(args[1])
    ts = list(t) if isinstance(t, tuple) else [t]
    names = []
    for x in ts:
        x = ex.deref(x)
        if isinstance(x, ExtV):
            names.append(x.qual.split(".")[-1])
        elif hasattr(x, "info"):
            names.append(x.info.name)
        else:
            return ex.fbool("isinstance")

    def has(*n):
        return any(x in names for x in n)
    if isinstance(v, Opaque):
        return z3.Bool(f"truth@isinst{v.uid}.{'.'.join(names)}")
    if is_bool(v):
        return has("bool", "int", "Integral", "Number", "Real", "bool_")
    if is_int(v):
        return has("int", "Integral", "integer", "Number", "Real", "number")
    if isinstance(v, (Fl, float)):
        return has("float", "Real", "Number", "floating", "number")
    if isinstance(v, (str, StrS)):
        return has("str")
    if isinstance(v, tuple):
        return has("tuple", "Sequence", "Iterable")
    if isinstance(v, SeqV):
        return has({"list": "list", "tuple": "tuple", "arr": "ndarray", "range": "range"}[v.kind], "Sequence", "Iterable")
    if isinstance(v, ArrV):
        return has("ndarray", "Iterable")
    if isinstance(v, SetV):
        return has("set", "Iterable")
    if isinstance(v, DictV):
        return has("dict", "Mapping", "Iterable")
    if v is None:
        return has("NoneType")
    if isinstance(v, Opt):
        r = py_isinstance(ex, [v.val, t], kw)
        return And(Not(v.isnone), r)
    if isinstance(v, ObjV):
        if v.cls is None:
            return ex.fbool("isinstance")
        mro = [c.name for c in v.cls.mro(ex.prog)]
        return any(n in mro for n in names)
    return ex.fbool("isinstance")


def py_hasattr(ex, args, kw):
    v, nm = ex.deref(args[0]), ex.deref(args[1])
    if isinstance(v, Opaque) and isinstance(nm, str):
        return z3.Bool(f"truth@has{v.uid}.{nm}")
    if v is None and nm in ("fit", "predict"):
        return False
    if nm == "__iter__" and (is_int(v) or is_bool(v) or isinstance(v, (Fl, float)) or v is None):
        return False
    if nm in ("__iter__", "__len__") and isinstance(v, (SeqV, ArrV, SetV, DictV, tuple, str)):
        return True
    return ex.fbool("hasattr")


def py_anyall(ex, args, kw, isany):
    c = ex.deref(args[0])
    if isinstance(c, tuple):
        ts = [ex.truth(x) for x in c]
        return Or(*ts) if isany else And(*ts)
    if isinstance(c, SeqV):
        if c.items is not None:
            ts = [ex.truth(x) for x in c.items]
            return Or(*ts) if isany else And(*ts)
        if c.ety in ("bool", "int", "float"):
            return np_any(ex, c) if isany else np_all(ex, c)
    return ex.fbool("anyall")


def py_sum(ex, args, kw):
    c = ex.deref(args[0])
    if isinstance(c, tuple) or (isinstance(c, SeqV) and c.items is not None):
        items = list(c) if isinstance(c, tuple) else c.items
        r = ex.deref(args[1]) if len(args) > 1 else ex.deref(kw.get("start", 0))
        for x in items:
            r = binop(ex, ast.Add(), r, ex.deref(x))
        return r
    if isinstance(c, SeqV) and c.kind == "arr":
        return np_sum(ex, args[:1], {})
    return Opaque("sum")


def py_map(ex, args, kw):
    if len(args) == 2:
        it = iterate(ex, args[1])
        f = args[0]
        return IterV(it.n, None if it.items is not None else (lambda e, k: e.call(f, [it.elem(e, k)], {})),
                     items=None if it.items is None else [ex.call(f, [x], {}) for x in it.items])
    return Opaque("map")


def set_static(ex, name, args):
    if args and isinstance(args[0], tuple) and len(args[0]) == 2 and args[0][0] == "*":
        s = args[0][1]
        if isinstance(s, SeqV) and isinstance(s.ety, tuple) and s.ety[0] == "set":
            q, = bvars(1)
            if name == "intersection":
                if not ex.branch(Lt(0, s.n)):
                    raise RaiseEx("TypeError", True)
                return ex.new(SetV(lambda v: ForAll([q], Implies(And(0 <= q, Lt(q, s.n)), s.get(q).mem(v)))))
            if name == "union":
                return ex.new(SetV(lambda v: Exists([q], And(0 <= q, Lt(q, s.n), s.get(q).mem(v)))))
        return ex.new(ex.fresh(("set",), "set"))
    a = [to_set(ex, x) for x in args]
    if any(isinstance(x, Opaque) for x in a) or not a:
        return ex.new(ex.fresh(("set",), "set"))
    op = {"union": ast.BitOr(), "intersection": ast.BitAnd(), "difference": ast.Sub()}[name]
    r = a[0]
    for x in a[1:]:
        r = set_op(ex, op, r, x)
    return ex.new(r)


def copy_any(ex, args, kw):
    c = ex.deref(args[0])
    if isinstance(c, (SeqV, SetV, ArrV, DictV)) and not (isinstance(c, SeqV) and c.kind == "tuple"):
        return ex.new(c)
    if isinstance(c, Opaque):
        return Opaque("copy")
    if isinstance(c, ObjV):
        return ex.new(c)
    return c


def np_diag(ex, args, kw):
    c = ex.deref(args[0])
    if isinstance(c, ArrV) and c.ndim == 2 and len(args) == 1 and c.dtype in ("float", "int"):
        if _same_term(c.shape[0], c.shape[1]):
            s = SeqV(c.shape[0], lambda i: c.get(i, i), "arr", c.dtype)
            return ex.new(ex.with_mem(s) if c.dtype == "int" else s)
    return Opaque("diag")


def np_eye(ex, args, kw):
    n = ex.deref(args[0])
    if is_int(n) and len(args) == 1 and not kw:
        return ex.new(ArrV((n, n), lambda i, j: Fl(If(Eq(i, j), z3.RealVal(1), z3.RealVal(0))), "float"))
    return Opaque("eye")


def np_argwhere(ex, args, kw):
    c = ex.deref(args[0])
    if isinstance(c, SeqV):
        w = where1(ex, truthy_seq(ex, c))
        # shape (N,1); .flatten()/.ravel() gives the indices back
        return ex.new(ArgWhere(w))
    if isinstance(c, ArrV) and c.ndim == 2 and c.dtype == "bool":
        return ex.new(rows_where(ex, c))
    return Opaque("argwhere")


def ArgWhere(w):
    return ArrV((w.n, 1), lambda i, j: w.get(i), "int", src=("argwhere", w))


_old_arr_method = arr_method


def arr_method(ex, recv, c, name, args, A, kw):  # noqa: F811
    if name in ("flatten", "ravel") and isinstance(c, ArrV):
        if c.src is not None and c.src[0] == "argwhere":
            return ex.new(c.src[1])
        if c.rowcnt is not None:
            # all indices occurring in some row
            rc = c.rowcnt
            r = ex.fresh(("seq", "arr", "int"), "ravel")
            v, w = bvars(2)
            mem = lambda x: Exists([w], Or(Lt(0, rc(x, w)), Lt(0, rc(w, x))))
            ex.assume(ForAll([v], r.mem(v) == as_bool(mem(v)), [r.mem(v)]))
            return ex.new(SeqV(r.n, r.get, "arr", "int", mem, r.pos, r.distinct))
    return _old_arr_method(ex, recv, c, name, args, A, kw)


def np_tri(lower):
    def f(ex, args, kw):
        c = ex.deref(args[0])
        k = ex.deref(kw.get("k", args[1] if len(args) > 1 else 0))
        if isinstance(c, ArrV) and c.ndim == 2 and c.dtype in ("float", "int") and is_int(k):
            z = Fl(0.0) if c.dtype == "float" else 0
            cond = (lambda i, j: Le(j, i + k)) if lower else (lambda i, j: Le(i + k, j))
            return ex.new(ArrV(c.shape, lambda i, j: merge(cond(i, j), c.get(i, j), z), c.dtype))
        return Opaque("tri")
    return f


def np_isclose(ex, args, kw):
    a, b = ex.deref(args[0]), ex.deref(args[1])
    if isinstance(a, (ArrV, SeqV)) and isnum(b) or isinstance(b, (ArrV, SeqV)) and isnum(a) or (
            isinstance(a, (ArrV, SeqV)) and isinstance(b, (ArrV, SeqV))):
        CL = z3.Function("isclose", R, R, BS)

        def f(x, y):
            x, y = to_fl(x), to_fl(y)
            return And(Not(x.nan), Not(y.nan), Or(Eq(x.v, y.v), CL(x.v, y.v)))
        return elementwise(ex, f, a, b, "bool")
    return Opaque("isclose")


def noop(ex, args, kw):
    return None


def warn(ex, args, kw):
    ex.events.append("warn")
    return None


STAR_OK = {"builtins.set.intersection", "builtins.set.union"}

EXT = {
    "numpy.zeros": np_zeros,
    "numpy.ones": lambda ex, a, k: np_zeros(ex, a, k, 1),
    "numpy.full": np_full,
    "numpy.zeros_like": np_zeros_like,
    "numpy.ones_like": lambda ex, a, k: np_zeros_like(ex, a, k, 1),
    "numpy.empty": np_empty,
    "numpy.arange": np_arange,
    "numpy.array": np_array,
    "numpy.asarray": lambda ex, a, k: check_array(ex, a, k) if isinstance(ex.deref(a[0]), ArrV) or (
        isinstance(ex.deref(a[0]), SeqV) and ex.deref(a[0]).kind == "arr") else np_array(ex, a, k),
    "numpy.where": np_where,
    "numpy.nonzero": lambda ex, a, k: np_where(ex, a, k),
    "numpy.flatnonzero": lambda ex, a, k: ex.new(where1(ex, truthy_seq(ex, ex.deref(a[0])))) if isinstance(
        ex.deref(a[0]), SeqV) else Opaque("flatnonzero"),
    "numpy.abs": np_abs, "numpy.absolute": np_abs, "numpy.fabs": np_abs,
    "numpy.isnan": np_isnan,
    "numpy.nan_to_num": np_nan_to_num,
    "numpy.fill_diagonal": np_fill_diagonal,
    "numpy.argmax": np_argm, "numpy.argmin": np_argm, "numpy.nanargmax": np_argm, "numpy.nanargmin": np_argm,
    "numpy.any": lambda ex, a, k: np_any(ex, ex.deref(a[0])) if not k and len(a) == 1 else Opaque("any"),
    "numpy.all": lambda ex, a, k: np_all(ex, ex.deref(a[0])) if not k and len(a) == 1 else Opaque("all"),
    "numpy.sum": np_sum,
    "numpy.count_nonzero": lambda ex, a, k: np_sum(ex, [truthy_seq(ex, ex.deref(a[0]))], {}) if isinstance(
        ex.deref(a[0]), SeqV) and not k else Opaque("count"),
    "numpy.delete": np_delete,
    "numpy.copy": np_copy,
    "numpy.concatenate": np_concatenate,
    "numpy.unique": np_unique,
    "numpy.ix_": np_ix,
    "numpy.diag": np_diag,
    "numpy.dot": np_dot, "numpy.matmul": np_dot,
    "numpy.reshape": np_reshape,
    "numpy.transpose": lambda ex, a, k: attr(ex, a[0], ex.deref(a[0]), "T") if len(a) == 1 and isinstance(
        ex.deref(a[0]), ArrV) else Opaque("transpose"),
    "numpy.eye": np_eye, "numpy.identity": np_eye,
    "numpy.argwhere": np_argwhere,
    "numpy.tril": np_tri(True), "numpy.triu": np_tri(False),
    "numpy.isclose": np_isclose,
    "sklearn.utils.check_array": check_array,
    "sklearn.utils.check_scalar": check_scalar,
    "itertools.combinations": lambda ex, a, k: combinations(ex, a[0], ex.deref(a[1])),
    "copy.copy": copy_any, "copy.deepcopy": copy_any,
    "warnings.warn": warn,
    "builtins.len": py_len, "builtins.range": py_range, "builtins.enumerate": py_enumerate,
    "builtins.zip": py_zip, "builtins.list": py_list, "builtins.tuple": py_tuple, "builtins.set": py_set,
    "builtins.frozenset": py_set,
    "builtins.sorted": py_sorted,
    "builtins.min": lambda ex, a, k: py_minmax(ex, a, k, False),
    "builtins.max": lambda ex, a, k: py_minmax(ex, a, k, True),
    "builtins.abs": py_abs, "builtins.int": py_int, "builtins.float": py_float, "builtins.bool": py_bool,
    "builtins.isinstance": py_isinstance,
    "builtins.any": lambda ex, a, k: py_anyall(ex, a, k, True),
    "builtins.all": lambda ex, a, k: py_anyall(ex, a, k, False),
    "builtins.sum": py_sum,
    "builtins.map": py_map,
    "builtins.print": noop,
    "builtins.reversed": lambda ex, a, k: seq_rev(ex, to_seq(ex, a[0], "list")) if not isinstance(
        ex.deref(a[0]), (Opaque, IterV)) else Opaque("rev"),
    "builtins.set.intersection": lambda ex, a, k: set_static(ex, "intersection", a),
    "builtins.set.union": lambda ex, a, k: set_static(ex, "union", a),
    "builtins.dict": lambda ex, a, k: ex.new(DictV(cd=dict(k))) if not a else Opaque("dict"),
    "builtins.hasattr": lambda ex, a, k: py_hasattr(ex, a, k),
}
