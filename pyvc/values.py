"""Symbolic values.  All value objects are immutable; mutable Python objects live
in heap cells and are named by Ref / ElemRef."""
import z3

I, R, BS = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Unsupported(Exception):
    """construct outside the subset the generator accepts"""


# ---------------------------------------------------------------- term helpers
def is_term(x):
    return isinstance(x, z3.ExprRef)


def is_int(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or (
        isinstance(x, z3.ArithRef) and x.is_int())


def is_bool(x):
    return isinstance(x, bool) or isinstance(x, z3.BoolRef)


def as_bool(b):
    return z3.BoolVal(b) if isinstance(b, bool) else b


def as_int(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def Not(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def And(*xs):
    out = []
    for x in xs:
        if x is True or (is_term(x) and z3.is_true(x)):
            continue
        if x is False or (is_term(x) and z3.is_false(x)):
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        if x is False or (is_term(x) and z3.is_false(x)):
            continue
        if x is True or (is_term(x) and z3.is_true(x)):
            return True
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def Implies(a, b):
    return Or(Not(a), b)


def If(c, a, b):
    if c is True or (is_term(c) and z3.is_true(c)):
        return a
    if c is False or (is_term(c) and z3.is_false(c)):
        return b
    if is_term(a) and is_term(b) and a.eq(b):
        return a
    if not is_term(a) and not is_term(b) and type(a) is type(b) and a == b:
        return a
    if isinstance(a, bool):
        a = z3.BoolVal(a)
    if isinstance(b, bool):
        b = z3.BoolVal(b)
    if isinstance(a, int):
        a = z3.IntVal(a)
    if isinstance(b, int):
        b = z3.IntVal(b)
    return z3.If(c, a, b)


def Eq(a, b):
    if not is_term(a) and not is_term(b):
        return a == b
    if is_term(a) and is_term(b) and a.eq(b):
        return True
    return a == b if is_term(a) else b == a


def Lt(a, b):
    if is_term(a) and is_term(b) and a.eq(b):
        return False
    return a < b


def Le(a, b):
    if is_term(a) and is_term(b) and a.eq(b):
        return True
    return a <= b


def ForAll(vs, body, patterns=None):
    if isinstance(body, bool):
        return body
    if patterns:
        try:
            return z3.ForAll(vs, body, patterns=patterns)
        except z3.Z3Exception:
            pass
    return z3.ForAll(vs, body)


def Exists(vs, body):
    if isinstance(body, bool):
        return body
    return z3.Exists(vs, body)


_bv = [0]


def bvars(n, sort=I, base="q"):
    out = []
    for _ in range(n):
        _bv[0] += 1
        out.append(z3.Const(f"{base}!{_bv[0]}", sort))
    return out


# ---------------------------------------------------------------- scalars
class Fl:
    """a float: real value + NaN flag"""
    __slots__ = ("v", "nan")

    def __init__(self, v, nan=False):
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            v = z3.RealVal(v)
        self.v, self.nan = v, nan

    def is_zero(self):
        return And(Not(self.nan), Eq(self.v, z3.RealVal(0)))

    def nonzero(self):
        """!= 0 in Python (NaN counts as nonzero)"""
        return Not(self.is_zero())

    def __repr__(self):
        return f"Fl({self.v},{self.nan})"


class Opaque:
    """A value about which nothing is known.  alias: heap cells it may share memory with"""
    __slots__ = ("tag", "alias", "uid")
    _n = 0

    def __init__(self, tag="", alias=frozenset()):
        Opaque._n += 1
        self.tag, self.alias, self.uid = tag, alias, Opaque._n

    def __repr__(self):
        return f"Opaque({self.tag})"


class AltV:
    """one of two values, of different types, by a condition (resolved by a fork when it is read)"""
    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def pick(self, ex):
        v = self
        while isinstance(v, AltV):
            v = v.a if ex.branch(v.cond) else v.b
        return v


class Opt:
    """None or a value"""
    __slots__ = ("isnone", "val")

    def __init__(self, isnone, val):
        self.isnone, self.val = isnone, val

    def __repr__(self):
        return f"Opt({self.isnone},{self.val})"


_codes = {}


def str_code(x):
    """distinct integer per string literal"""
    return _codes.setdefault(x, len(_codes))


class StrS:
    """unknown string: an integer code, equal to str_code(literal) exactly when it is that literal"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"StrS({self.t})"


# ---------------------------------------------------------------- containers
class SeqV:
    """list / tuple / 1-d ndarray / range.

    n: length; get(i); for int elements mem(v), pos(v) (first index), distinct (formula)"""
    __slots__ = ("n", "get", "mem", "pos", "distinct", "kind", "ety", "items", "pred", "src")

    def __init__(self, n, get, kind="list", ety=None, mem=None, pos=None, distinct=None,
                 items=None, pred=None, src=None):
        self.n, self.get, self.kind, self.ety = n, get, kind, ety
        self.mem, self.pos, self.distinct, self.items = mem, pos, distinct, items
        self.pred = pred
        self.src = src

    def with_kind(self, kind):
        return SeqV(self.n, self.get, kind, self.ety, self.mem, self.pos, self.distinct,
                    self.items, self.pred, self.src)

    def is_distinct(self):
        if self.distinct is not None:
            return self.distinct
        i, j = bvars(2)
        return ForAll([i, j], Implies(And(Le(0, i), Lt(i, j), Lt(j, self.n)),
                                      Not(Eq(self.get(i), self.get(j)))))

    def has(self, v):
        if self.mem is not None:
            return self.mem(v)
        if self.ety == "int" or self.ety is None:
            i, = bvars(1)
            return Exists([i], And(Le(0, i), Lt(i, self.n), Eq(self.get(i), v)))
        raise Unsupported("membership in non-int sequence")

    def __repr__(self):
        return f"SeqV({self.kind},{self.ety},n={self.n})"


class SetV:
    __slots__ = ("mem", "card", "items")

    def __init__(self, mem, card=None, items=None):
        self.mem, self.card, self.items = mem, card, items

    def __repr__(self):
        return "SetV"


class ArrV:
    """ndarray with ndim >= 2 (1-d arrays are SeqV kind='arr').
    rowcnt(a,b): multiplicity of the row (a,b) for (N,2) int arrays (optional)"""
    __slots__ = ("shape", "get", "dtype", "rowcnt", "src")

    def __init__(self, shape, get, dtype="float", rowcnt=None, src=None):
        self.shape, self.get, self.dtype, self.rowcnt = tuple(shape), get, dtype, rowcnt
        self.src = src

    @property
    def ndim(self):
        return len(self.shape)

    def __repr__(self):
        return f"ArrV({self.dtype},{self.shape})"


class DictV:
    """cd: python dict (concrete keys), or symbolic int-keyed: has(k), get(k)"""
    __slots__ = ("cd", "has", "get", "vty")

    def __init__(self, cd=None, has=None, get=None, vty=None):
        self.cd, self.has, self.get, self.vty = cd, has, get, vty


class ObjV:
    __slots__ = ("cls", "attrs", "havoced")

    def __init__(self, cls, attrs=None, havoced=False):
        self.cls, self.attrs, self.havoced = cls, attrs or {}, havoced


class Ref:
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return f"Ref({self.id})"


class ElemRef:
    __slots__ = ("base", "idx")

    def __init__(self, base, idx):
        self.base, self.idx = base, idx

    def __repr__(self):
        return f"ElemRef({self.base},{self.idx})"


class FnV:
    def __init__(self, info, env=None, self_val=None, owner=None):
        self.info, self.env, self.self_val, self.owner = info, env, self_val, owner


class ClsV:
    def __init__(self, info):
        self.info = info


class ExtV:
    def __init__(self, qual):
        self.qual = qual

    def __repr__(self):
        return f"ExtV({self.qual})"


class MethV:
    """method of a builtin container / ndarray value"""

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class SuperV:
    def __init__(self, self_val, owner):
        self.self_val, self.owner = self_val, owner


class IterV:
    """abstract iterable of symbolic length whose element at k is produced by elem(ex,k)"""

    def __init__(self, n, elem, note="", items=None, after=None, cover=None):
        self.n, self.elem, self.note, self.items = n, elem, note, items
        self.seq = None      # the int sequence iterated over, if any


class SliceV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


# ---------------------------------------------------------------- substitution
def subst(v, frm, to):
    """substitute z3 constants inside a value"""
    pairs = list(zip(frm, [as_int(t) if isinstance(t, int) else t for t in to]))
    return _sub(v, pairs)


def _sub(v, pairs):
    if is_term(v):
        return z3.substitute(v, *pairs)
    if isinstance(v, Fl):
        return Fl(_sub(v.v, pairs), _sub(v.nan, pairs))
    if isinstance(v, Opt):
        return Opt(_sub(v.isnone, pairs), _sub(v.val, pairs))
    if isinstance(v, StrS):
        return StrS(_sub(v.t, pairs))
    if isinstance(v, tuple):
        return tuple(_sub(x, pairs) for x in v)
    if isinstance(v, SeqV):
        f = lambda g: None if g is None else (lambda *a: _sub(g(*a), pairs))
        return SeqV(_sub(v.n, pairs), f(v.get), v.kind, v.ety, f(v.mem), f(v.pos),
                    _sub(v.distinct, pairs),
                    None if v.items is None else [_sub(x, pairs) for x in v.items])
    if isinstance(v, SetV):
        return SetV(lambda x: _sub(v.mem(x), pairs), _sub(v.card, pairs),
                    None if v.items is None else [_sub(x, pairs) for x in v.items])
    if isinstance(v, ArrV):
        return ArrV([_sub(s, pairs) for s in v.shape], lambda *a: _sub(v.get(*a), pairs), v.dtype)
    return v


# ---------------------------------------------------------------- sequence constructors
def ety_of(v):
    if is_bool(v):
        return "bool"
    if is_int(v):
        return "int"
    if isinstance(v, (Fl, float)):
        return "float"
    if isinstance(v, Opaque):
        return "opaque"
    if v is None:
        return "none"
    if isinstance(v, (str, StrS)):
        return "str"
    if isinstance(v, SetV):
        return ("set",)
    if isinstance(v, SeqV):
        return ("seq", v.kind, v.ety)
    if isinstance(v, ArrV):
        return ("arr", v.ndim, v.dtype)
    if isinstance(v, Opt):
        return ("opt", ety_of(v.val))
    if isinstance(v, tuple):
        return ("tuple", tuple(ety_of(x) for x in v))
    if isinstance(v, DictV):
        return ("dict", v.vty)
    return "opaque"


def join_ty(a, b):
    if a == b or b is None:
        return a
    if a is None:
        return b
    if a == "none":
        return b if isinstance(b, tuple) and b[0] == "opt" else ("opt", b)
    if b == "none":
        return a if isinstance(a, tuple) and a[0] == "opt" else ("opt", a)
    if isinstance(a, tuple) and a[0] == "opt":
        return ("opt", join_ty(a[1], b[1] if isinstance(b, tuple) and b[0] == "opt" else b))
    if isinstance(b, tuple) and b[0] == "opt":
        return ("opt", join_ty(a, b[1]))
    if {a, b} == {"int", "float"}:
        return "float"
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a[0] == b[0] == "seq":
            if a[1] == b[1]:
                return ("seq", a[1], join_ty(a[2], b[2]))
        if a[0] == b[0] == "tuple" and len(a[1]) == len(b[1]):
            return ("tuple", tuple(join_ty(x, y) for x, y in zip(a[1], b[1])))
        if a[0] == b[0] == "arr" and a[1] == b[1]:
            return ("arr", a[1], join_ty(a[2], b[2]))
        if a[0] == b[0] == "dict":
            return ("dict", join_ty(a[1], b[1]))
    return "opaque"


def seq_items(items, kind="list"):
    items = list(items)
    ety = None
    for x in items:
        ety = join_ty(ety, ety_of(x))
    n = len(items)

    def get(i):
        if isinstance(i, int):
            return items[i]
        if z3.is_int_value(i):
            j = i.as_long()
            if 0 <= j < n:
                return items[j]
        if n == 0:
            return Opaque("empty")
        r = items[n - 1]
        for k in range(n - 2, -1, -1):
            r = merge(Eq(i, k), items[k], r)
        return r

    if ety in ("int", None):
        def mem(v):
            return Or(*[Eq(v, x) for x in items])

        def pos(v):
            r = 0
            for k in range(n - 1, -1, -1):
                r = If(Eq(v, items[k]), k, r)
            return r
        if n <= 1:
            d = True
        elif all(isinstance(x, int) for x in items):
            d = len(set(items)) == n
        else:
            d = z3.Distinct(*[as_int(x) for x in items])
        return SeqV(n, get, kind, ety, mem, pos, d, items)
    return SeqV(n, get, kind, ety, None, None, None, items)


def seq_range(lo, hi, kind="range"):
    n = If(Le(lo, hi), hi - lo, 0)
    if isinstance(lo, int) and isinstance(hi, int):
        n = max(0, hi - lo)
        if n <= 64:
            return seq_items(list(range(lo, hi)), kind)
    return SeqV(n, lambda i: lo + i, kind, "int",
                lambda v: And(Le(lo, v), Lt(v, hi)), lambda v: v - lo, True)


def merge(c, a, b):
    """value-level if-then-else"""
    if c is True or (is_term(c) and z3.is_true(c)):
        return a
    if c is False or (is_term(c) and z3.is_false(c)):
        return b
    if a is b:
        return a
    if is_bool(a) and is_bool(b):
        return If(c, a, b)
    if is_int(a) and is_int(b):
        return If(c, a, b)
    if isinstance(a, (Fl, float, int)) and isinstance(b, (Fl, float, int)) and not is_bool(a):
        a, b = to_fl(a), to_fl(b)
        return Fl(If(c, a.v, b.v), If(c, a.nan, b.nan))
    if isinstance(a, str) and isinstance(b, str) and a == b:
        return a
    if isinstance(a, (str, StrS)) and isinstance(b, (str, StrS)):
        f = lambda x: str_code(x) if isinstance(x, str) else x.t
        return StrS(If(c, f(a), f(b)))
    if a is None and b is None:
        return None
    if a is None:
        if isinstance(b, Opt):
            return Opt(If(c, True, b.isnone), b.val)
        return Opt(c, b)
    if b is None:
        if isinstance(a, Opt):
            return Opt(If(c, a.isnone, True), a.val)
        return Opt(Not(c), a)
    if isinstance(a, Opt) or isinstance(b, Opt):
        a1 = a if isinstance(a, Opt) else Opt(False, a)
        b1 = b if isinstance(b, Opt) else Opt(False, b)
        return Opt(If(c, a1.isnone, b1.isnone), merge(c, a1.val, b1.val))
    if isinstance(a, SetV) and isinstance(b, SetV):
        return SetV(lambda v: If(c, a.mem(v), b.mem(v)),
                    If(c, a.card, b.card) if a.card is not None and b.card is not None else None)
    if isinstance(a, SeqV) and isinstance(b, SeqV) and a.kind == b.kind:
        e = join_ty(a.ety, b.ety)
        mm = pp = dd = None
        if a.mem is not None and b.mem is not None:
            mm = lambda v: If(c, a.mem(v), b.mem(v))
            pp = (lambda v: If(c, a.pos(v), b.pos(v))) if a.pos and b.pos else None
            if a.distinct is not None and b.distinct is not None:
                dd = If(c, a.distinct, b.distinct)
        def get(i):
            if isinstance(a.n, int) and a.n == 0:
                return b.get(i)
            if isinstance(b.n, int) and b.n == 0:
                return a.get(i)
            return merge(c, a.get(i), b.get(i))
        return SeqV(If(c, a.n, b.n), get, a.kind, e, mm, pp, dd)
    if isinstance(a, ArrV) and isinstance(b, ArrV) and a.ndim == b.ndim:
        return ArrV([If(c, x, y) for x, y in zip(a.shape, b.shape)],
                    lambda *i: merge(c, a.get(*i), b.get(*i)), join_ty(a.dtype, b.dtype))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    al = frozenset()
    for x in (a, b):
        if isinstance(x, Opaque):
            al |= x.alias
        if isinstance(x, (Ref, ElemRef)):
            raise Unsupported("merge of references")
    return Opaque("merge", al)


def to_fl(x):
    if isinstance(x, Fl):
        return x
    if isinstance(x, bool):
        return Fl(1.0 if x else 0.0)
    if isinstance(x, float):
        if x != x:
            return Fl(0.0, True)
        if x in (float("inf"), float("-inf")):
            return Fl(z3.Real("INF") if x > 0 else -z3.Real("INF"))
        return Fl(z3.RealVal(repr(x) if "e" not in repr(x) else format(x, ".400f").rstrip("0") + "0"))
    if isinstance(x, int):
        return Fl(z3.RealVal(x))
    if isinstance(x, z3.BoolRef):
        return Fl(z3.If(x, z3.RealVal(1), z3.RealVal(0)))
    if isinstance(x, z3.ArithRef):
        return Fl(z3.ToReal(x) if x.is_int() else x)
    raise Unsupported(f"to_fl {x!r}")
