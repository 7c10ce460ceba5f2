"""Hash-consed term language (locally nameless) used by the verifier.

Sorts: 'I' (integer), 'R' (real), 'B' (boolean).  Division is total with 1/0 = 0
(the usual convention of deductive verifiers); where a property needs a
denominator to be non-zero this is stated as a separate obligation.
"""
from __future__ import annotations
from fractions import Fraction
import math

_table = {}
_list = []


class T:
    __slots__ = ("op", "args", "sort", "id", "lb", "fv", "bd")

    def __repr__(self):
        return pretty(self)

    # python operators for writing specifications conveniently
    def __add__(self, o): return add(self, lift(o))
    def __radd__(self, o): return add(lift(o), self)
    def __sub__(self, o): return sub(self, lift(o))
    def __rsub__(self, o): return sub(lift(o), self)
    def __mul__(self, o): return mul(self, lift(o))
    def __rmul__(self, o): return mul(lift(o), self)
    def __truediv__(self, o): return div(self, lift(o))
    def __rtruediv__(self, o): return div(lift(o), self)
    def __neg__(self): return mul(num(-1), self)
    def __pow__(self, k): return power(self, k)
    def __lt__(self, o): return lt(self, lift(o))
    def __le__(self, o): return le(self, lift(o))
    def __gt__(self, o): return lt(lift(o), self)
    def __ge__(self, o): return le(lift(o), self)
    def __and__(self, o): return and_(self, lift(o))
    def __or__(self, o): return or_(self, lift(o))
    def __invert__(self): return not_(self)
    def __bool__(self):
        raise TypeError("symbolic term used as python bool")


def _mk(op, args, sort):
    key = (op, sort) + tuple((a.id if isinstance(a, T) else ("c", a)) for a in args)
    t = _table.get(key)
    if t is not None:
        return t
    t = T()
    t.op, t.args, t.sort = op, tuple(args), sort
    t.id = len(_list)
    lb = 0
    fv = None
    bd = 0
    if op == "var":
        fv = frozenset((t.id,))
    elif op == "bv":
        lb = args[0] + 1
    else:
        nb = binders(op, args)
        fvs = []
        for j, a in enumerate(args):
            if isinstance(a, T):
                x = a.lb
                if nb:
                    if op == "msum":
                        # range j sees no binder; body sees all
                        if j == len(args) - 1:
                            x = max(0, x - nb)
                    elif j == len(args) - 1:
                        x = max(0, x - nb)
                lb = max(lb, x)
                if a.fv:
                    fvs.append(a.fv)
                bd = max(bd, a.bd)
        if fvs:
            fv = fvs[0] if len(fvs) == 1 else frozenset().union(*fvs)
        if nb:
            bd += 1
    t.lb = lb
    t.fv = fv or frozenset()
    t.bd = bd
    _table[key] = t
    _list.append(t)
    return t


BINDERS = {"sum", "prod", "max", "min", "argmax", "argmin", "forall", "exists", "lam"}


def binders(op, args):
    if op in BINDERS:
        return 1
    if op == "msum":
        return len(args) - 1
    return 0


def num(x, sort=None):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            raise ValueError("non-finite numeral")
        x = Fraction(repr(x)) if 'e' not in repr(x) else Fraction(x).limit_denominator(10**30) if False else Fraction(repr(x))
    x = Fraction(x)
    if sort is None:
        sort = "I" if x.denominator == 1 else "R"
    return _mk("num", (x,), sort)


ZERO = num(0)
ONE = num(1)
TRUE = _mk("true", (), "B")
FALSE = _mk("false", (), "B")


def lift(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, (int, float, Fraction)):
        return num(x)
    import numpy as np
    if isinstance(x, np.bool_):
        return TRUE if x else FALSE
    if isinstance(x, np.integer):
        return num(int(x))
    if isinstance(x, np.floating):
        return num(float(x))
    raise TypeError(f"cannot lift {x!r}")


_fresh = [0]
VARINFO = {}     # var id -> (lo, hi) half-open integer range (terms), or {'hyps': ...}


def var(name, sort="I"):
    return _mk("var", (name,), sort)


def fresh(prefix="k", sort="I", rng=None):
    _fresh[0] += 1
    v = _mk("var", (f"{prefix}!{_fresh[0]}",), sort)
    if rng is not None:
        VARINFO[v.id] = rng
    return v


_reuse = {}


def fresh_for(n, avoid):
    """An index variable over [0,n) not in `avoid` (reused for memoisation)."""
    i = 0
    while True:
        v = _mk("var", (f"i#{n.id}#{i}",), "I")
        if v.id not in VARINFO:
            VARINFO[v.id] = (ZERO, n)
        if v.id not in avoid:
            return v
        i += 1


def bv(k, sort="I"):
    return _mk("bv", (k,), sort)


def app(f, *args, sort="R"):
    return _mk("app", (f,) + tuple(lift(a) for a in args), sort)


def is_num(t, v=None):
    return t.op == "num" and (v is None or t.args[0] == v)


def _num_sort(ts):
    return "I" if all(t.sort == "I" for t in ts) else "R"


def as_num(t):
    return iv(t) if t.sort == "B" else t


def add(*ts):
    ts = [as_num(t) for t in ts]
    out = []
    c = Fraction(0)
    for t in ts:
        if t.op == "num":
            c += t.args[0]
        elif t.op == "add":
            for u in t.args:
                if u.op == "num":
                    c += u.args[0]
                else:
                    out.append(u)
        else:
            out.append(t)
    s = _num_sort(ts) if ts else "I"
    if c != 0 or not out:
        out.append(num(c, s if c.denominator == 1 else "R"))
    if len(out) == 1:
        return out[0]
    return _mk("add", out, s)


def mul(*ts):
    ts = [as_num(t) for t in ts]
    out = []
    c = Fraction(1)
    for t in ts:
        if t.op == "num":
            c *= t.args[0]
        elif t.op == "mul":
            for u in t.args:
                if u.op == "num":
                    c *= u.args[0]
                else:
                    out.append(u)
        else:
            out.append(t)
    s = _num_sort(ts) if ts else "I"
    if c == 0:
        return num(0, s)
    if c != 1 or not out:
        out.insert(0, num(c, s if c.denominator == 1 else "R"))
    if len(out) == 1:
        return out[0]
    return _mk("mul", out, s)


def sub(a, b): return add(a, mul(num(-1), b))


def inv(a):
    a = as_num(a)
    if a.op == "num":
        v = a.args[0]
        return num(0 if v == 0 else 1 / v, "R")
    return _mk("inv", (a,), "R")


def div(a, b): return mul(a, inv(b))


def power(a, k):
    a = as_num(a)
    if isinstance(k, T):
        if k.op == "num":
            k = k.args[0]
        else:
            return ONE if is_num(a, 1) else app("pow", a, k)
    k = Fraction(k)
    if k.denominator != 1:
        if k == Fraction(1, 2):
            return app("sqrt", a)
        return app("pow", a, num(k))
    k = int(k)
    if k == 0:
        return ONE
    if k < 0:
        return inv(power(a, -k))
    if a.op == "num":
        return num(a.args[0] ** k, a.sort)
    if k == 1:
        return a
    return mul(*([a] * k))


def lt(a, b):
    a, b = as_num(a), as_num(b)
    if a.op == b.op == "num":
        return TRUE if a.args[0] < b.args[0] else FALSE
    if a is b:
        return FALSE
    return _mk("lt", (a, b), "B")


def le(a, b):
    a, b = as_num(a), as_num(b)
    if a.op == b.op == "num":
        return TRUE if a.args[0] <= b.args[0] else FALSE
    if a is b:
        return TRUE
    return _mk("le", (a, b), "B")


def eq(a, b):
    if a.sort == "B" and b.sort == "B":
        if a is b:
            return TRUE
        return or_(and_(a, b), and_(not_(a), not_(b)))
    a, b = as_num(a), as_num(b)
    if a.op == b.op == "num":
        return TRUE if a.args[0] == b.args[0] else FALSE
    if a is b:
        return TRUE
    if a.id > b.id:
        a, b = b, a
    return _mk("eq", (a, b), "B")


def ne(a, b): return not_(eq(a, b))


def as_bool(t):
    if t.sort == "B":
        return t
    if t.op == "iv":
        return t.args[0]
    return not_(eq(t, ZERO))


def not_(a):
    a = as_bool(a)
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == "not": return a.args[0]
    return _mk("not", (a,), "B")


def and_(*ts):
    out = []
    for t in ts:
        t = as_bool(t)
        if t is FALSE: return FALSE
        if t is TRUE: continue
        if t.op == "and":
            out.extend(t.args)
        else:
            out.append(t)
    out2 = []
    for t in out:
        if t not in out2: out2.append(t)
    if not out2: return TRUE
    if len(out2) == 1: return out2[0]
    return _mk("and", out2, "B")


def or_(*ts):
    out = []
    for t in ts:
        t = as_bool(t)
        if t is TRUE: return TRUE
        if t is FALSE: continue
        if t.op == "or":
            out.extend(t.args)
        else:
            out.append(t)
    out2 = []
    for t in out:
        if t not in out2: out2.append(t)
    if not out2: return FALSE
    if len(out2) == 1: return out2[0]
    return _mk("or", out2, "B")


def implies(a, b): return or_(not_(a), b)


def iv(b):
    if b.sort != "B":
        return b
    if b is TRUE: return ONE
    if b is FALSE: return ZERO
    return _mk("iv", (b,), "I")


def ite(c, a, b):
    c = as_bool(c)
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort == "B" and b.sort == "B":
        return or_(and_(c, a), and_(not_(c), b))
    a, b = as_num(a), as_num(b)
    return _mk("ite", (c, a, b), _num_sort((a, b)))


def min2(a, b): return ite(le(a, b), a, b)
def max2(a, b):
    a, b = lift(a), lift(b)
    if a.op == "num" and b.op != "num":
        a, b = b, a
    if b.op == "num" and a.op == "ite":
        # clipping: max(min(x, hi), lo) = min(max(x, lo), hi) for constants lo <= hi
        c, x, h = a.args
        if h.op == "num" and c is le(x, h) and h.args[0] >= b.args[0]:
            return min2(max2(x, b), h)
    return ite(le(b, a), a, b)
def abs_(a): return ite(le(ZERO, a), a, mul(num(-1), a))


# --- binders -------------------------------------------------------------
def abst(t, v, depth=0, memo=None):
    """replace free var v by bv(depth)"""
    if v.id not in t.fv:
        return t
    if t is v:
        return bv(depth, t.sort)
    if memo is None:
        memo = {}
    key = (t.id, depth)
    r = memo.get(key)
    if r is not None:
        return r
    nb = binders(t.op, t.args)
    args = []
    last = len(t.args) - 1
    for j, a in enumerate(t.args):
        if isinstance(a, T):
            args.append(abst(a, v, depth + (nb if j == last else 0), memo))
        else:
            args.append(a)
    r = rebuild(t, args)
    memo[key] = r
    return r


def inst(t, v, depth=0, memo=None):
    """replace bv(depth) by locally closed term v (other bvs above shift down by one)"""
    if t.lb <= depth:
        return t
    if t.op == "bv":
        if t.args[0] == depth:
            return v
        if t.args[0] > depth:
            return bv(t.args[0] - 1, t.sort)
        return t
    if memo is None:
        memo = {}
    key = (t.id, depth)
    r = memo.get(key)
    if r is not None:
        return r
    nb = binders(t.op, t.args)
    args = []
    last = len(t.args) - 1
    for j, a in enumerate(t.args):
        if isinstance(a, T):
            args.append(inst(a, v, depth + (nb if j == last else 0), memo))
        else:
            args.append(a)
    r = rebuild(t, args)
    memo[key] = r
    return r


def rebuild(t, args):
    """raw rebuild: keeps structure (no simplification that could reorder)"""
    op = t.op
    if op in ("add", "mul", "and", "or", "ite", "not", "iv", "lt", "le", "eq", "inv"):
        return {"add": lambda: add(*args), "mul": lambda: mul(*args), "and": lambda: and_(*args),
                "or": lambda: or_(*args), "ite": lambda: ite(*args), "not": lambda: not_(*args),
                "iv": lambda: iv(*args), "lt": lambda: lt(*args), "le": lambda: le(*args),
                "eq": lambda: eq(*args), "inv": lambda: inv(*args)}[op]()
    return _mk(op, args, t.sort)


def bind(op, n, f, sort=None):
    """op over k in [0,n) of f(k)"""
    n = lift(n)
    k = fresh("b", "I", (ZERO, n))
    body = lift(f(k))
    return bind_var(op, n, k, body, sort)


def bind_var(op, n, k, body, sort=None):
    if op in ("forall", "exists"):
        body = as_bool(body)
        if body is TRUE and op == "forall": return TRUE
        if body is FALSE and op == "exists": return FALSE
        if is_num(n) and n.args[0] <= 0:
            return TRUE if op == "forall" else FALSE
        if is_num(n) and n.args[0] <= 4 and n.args[0].denominator == 1:
            xs = [subst(body, {k: num(j)}) for j in range(int(n.args[0]))]
            return and_(*xs) if op == "forall" else or_(*xs)
        sort = "B"
    else:
        body = as_num(body)
        if op == "sum":
            if is_num(body, 0): return ZERO
            if is_num(n) and 0 <= n.args[0] <= 1:
                return ZERO if n.args[0] == 0 else subst(body, {k: ZERO})
        if op in ("max", "min", "prod"):
            if is_num(n, 1): return subst(body, {k: ZERO})
        if op in ("max", "min") and k.id not in body.fv:
            return body
        if op in ("argmax", "argmin"):
            sort = "I"
            if is_num(n, 1): return ZERO
        sort = sort or body.sort
    return _mk(op, (n, abst(body, k)), sort)


def Sum(n, f): return bind("sum", n, f)
def Prod(n, f): return bind("prod", n, f)
def Max(n, f): return bind("max", n, f)
def Min(n, f): return bind("min", n, f)
def ArgMax(n, f): return bind("argmax", n, f)
def ArgMin(n, f): return bind("argmin", n, f)
def Forall(n, f): return bind("forall", n, f)
def Exists(n, f): return bind("exists", n, f)


def open_binder(t, avoid=frozenset()):
    n, body = t.args
    k = fresh_for(n, body.fv | avoid)
    return k, n, inst(body, k)


def subst(t, m):
    """simultaneous substitution of free variables (dict T->T)"""
    ids = {v.id: r for v, r in m.items()}
    memo = {}
    keys = frozenset(ids)

    def go(t):
        if not (t.fv & keys):
            return t
        r = memo.get(t.id)
        if r is not None:
            return r
        if t.op == "var":
            r = ids[t.id]
        elif t.op in BINDERS:
            n, body = t.args
            r = _mk(t.op, (go(n), go(body)), t.sort)
        else:
            r = rebuild(t, [go(a) if isinstance(a, T) else a for a in t.args])
        memo[t.id] = r
        return r
    return go(t)


def subterms(t, pred, acc=None, seen=None):
    if acc is None:
        acc, seen = [], set()
    if t.id in seen:
        return acc
    seen.add(t.id)
    if pred(t):
        acc.append(t)
    for a in t.args:
        if isinstance(a, T):
            subterms(a, pred, acc, seen)
    return acc


# --- pretty printing -------------------------------------------------------
def pretty(t, depth=0):
    op, a = t.op, t.args
    if op == "num":
        return str(a[0])
    if op == "var":
        return str(a[0])
    if op == "bv":
        return f"_{depth - 1 - a[0]}" if depth - 1 - a[0] >= 0 else f"^{a[0]}"
    if op == "app":
        return f"{a[0]}({', '.join(pretty(x, depth) for x in a[1:])})"
    if op == "add":
        return "(" + " + ".join(pretty(x, depth) for x in a) + ")"
    if op == "mul":
        return "*".join(pretty(x, depth) for x in a)
    if op == "inv":
        return f"1/({pretty(a[0], depth)})"
    if op == "iv":
        return f"[{pretty(a[0], depth)}]"
    if op == "ite":
        return f"(if {pretty(a[0], depth)} then {pretty(a[1], depth)} else {pretty(a[2], depth)})"
    if op in ("lt", "le", "eq"):
        return f"{pretty(a[0], depth)} {dict(lt='<', le='<=', eq='==')[op]} {pretty(a[1], depth)}"
    if op == "pos":
        return f"{pretty(a[0], depth)} > 0"
    if op == "zero":
        return f"{pretty(a[0], depth)} == 0"
    if op == "not":
        return f"not({pretty(a[0], depth)})"
    if op in ("and", "or"):
        return "(" + f" {op} ".join(pretty(x, depth) for x in a) + ")"
    if op in ("true", "false"):
        return op
    if op in BINDERS:
        return f"{op}[_{depth}<{pretty(a[0], depth)}]({pretty(a[1], depth + 1)})"
    if op == "msum":
        nb = len(a) - 1
        return "sum[" + ", ".join(f"_{depth + nb - 1 - j}<{pretty(a[j], depth)}" for j in range(nb)) + f"]({pretty(a[-1], depth + nb)})"
    return f"{op}({', '.join(pretty(x, depth) if isinstance(x, T) else str(x) for x in a)})"


# --- concrete evaluation -----------------------------------------------------
class NotEvaluable(Exception):
    """a specification that cannot be evaluated on concrete input (an error of the contract, not of the input)"""


class Undefined(Exception):
    pass


_BUILTIN = {
    "exp": math.exp, "log": lambda x: math.log(x) if x > 0 else _undef(), "sqrt": lambda x: math.sqrt(x) if x >= 0 else _undef(),
    "logit": lambda x: math.log(x / (1 - x)) if 0 < x < 1 else _undef(),
    "sin": math.sin, "cos": math.cos, "pow": lambda x, y: _pow(x, y),
    "floor": math.floor, "ceil": math.ceil, "mod": lambda a, b: a % b, "idiv": lambda a, b: a // b,
    "percentile": lambda l, q: float(_np().percentile(l, q)), "nunique": lambda l: len(set(l)), "uniq": lambda l, i: sorted(set(l))[i],
    "argsort": lambda l, n, r: int(_np().argsort(l)[r]), "argrank": lambda l, n, b: list(_np().argsort(l)).index(int(b)),
    "t_ppf": lambda df, q: _tppf(df, q),
    "sign": lambda x: (x > 0) - (x < 0), "round": lambda x: round(x), "trunc": lambda x: int(x),
}


def _np():
    import numpy
    return numpy


def _tppf(df, q):
    from scipy import stats
    if df <= 0:
        raise Undefined()
    return float(stats.t(df).ppf(q))


def _pow(x, y):
    r = x ** y
    if isinstance(r, complex): raise Undefined()
    return r


def _undef():
    raise Undefined("domain")


class Env:
    """concrete interpretation: vars name->number, funs name->callable"""

    def __init__(self, vars=None, funs=None, strict_div=True):
        self.vars = dict(vars or {})
        self.funs = dict(_BUILTIN)
        self.funs.update(funs or {})
        self.strict_div = strict_div
        self.memo = {}

    def __getitem__(self, name):
        return self.vars[name]


def ev(t, env, stk=()):
    op, a = t.op, t.args
    if op == "num":
        v = a[0]
        return int(v) if v.denominator == 1 else float(v)
    if op == "var":
        try:
            return env.vars[a[0]]
        except KeyError:
            raise NotEvaluable(f"free variable {a[0]}")
    if op == "bv":
        return stk[-1 - a[0]]
    closed = t.lb == 0
    if closed:
        r = env.memo.get(t.id)
        if r is not None:
            return r
    r = _ev(t, op, a, env, stk)
    if closed:
        env.memo[t.id] = r
    return r


def _ev(t, op, a, env, stk):
    if op == "app":
        f = env.funs.get(a[0])
        if f is None:
            raise NotEvaluable(f"uninterpreted {a[0]}")
        return f(*[ev(x, env, stk) for x in a[1:]])
    if op == "add":
        return sum(ev(x, env, stk) for x in a)
    if op == "mul":
        r = 1
        # guards first so that guarded-out undefined factors are not evaluated
        for x in sorted(a, key=lambda x: x.op != "iv"):
            r = r * ev(x, env, stk)
            if r == 0:
                return 0
        return r
    if op == "inv":
        d = ev(a[0], env, stk)
        if d == 0:
            if env.strict_div:
                raise Undefined("division by zero")
            return 0
        return 1 / d
    if op == "iv":
        return 1 if ev(a[0], env, stk) else 0
    if op == "ite":
        return ev(a[1], env, stk) if ev(a[0], env, stk) else ev(a[2], env, stk)
    if op == "lt":
        return ev(a[0], env, stk) < ev(a[1], env, stk)
    if op == "le":
        return ev(a[0], env, stk) <= ev(a[1], env, stk)
    if op == "eq":
        return ev(a[0], env, stk) == ev(a[1], env, stk)
    if op == "pos":
        return ev(a[0], env, stk) > 0
    if op == "zero":
        return ev(a[0], env, stk) == 0
    if op == "not":
        return not ev(a[0], env, stk)
    if op == "and":
        return all(ev(x, env, stk) for x in a)
    if op == "or":
        return any(ev(x, env, stk) for x in a)
    if op == "true":
        return True
    if op == "false":
        return False
    if op in BINDERS:
        n = ev(a[0], env, stk)
        vals = (ev(a[1], env, stk + (k,)) for k in range(int(n)))
        if op == "sum":
            return sum(vals)
        if op == "prod":
            r = 1
            for v in vals: r *= v
            return r
        if op == "forall":
            return all(vals)
        if op == "exists":
            return any(vals)
        if op == "lam":
            return tuple(vals)
        vals = list(vals)
        if not vals:
            raise Undefined("empty extremum")
        if op == "max": return max(vals)
        if op == "min": return min(vals)
        if op == "argmax": return vals.index(max(vals))
        if op == "argmin": return vals.index(min(vals))
    if op == "msum":
        ns = [int(ev(x, env, stk)) for x in a[:-1]]
        import itertools
        tot = 0
        for idx in itertools.product(*[range(n) for n in ns]):
            tot += ev(a[-1], env, stk + tuple(idx))
        return tot
    raise Undefined(f"eval {op}")
