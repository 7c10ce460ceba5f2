"""Symbolic values: scalars (Sym), arrays of unbounded symbolic shape (SArr)."""
from __future__ import annotations
import math
from fractions import Fraction
import numpy as np
from . import terms as tm
from .terms import T, ZERO, ONE, TRUE, FALSE
from . import norm as nm


class Unsupported(Exception):
    """construct outside the verifier's subset"""


class UnsupportedAttr(Unsupported, AttributeError):
    """an attribute real arrays have and symbolic ones do not model"""


class SymRaise(Exception):
    """an exception raised by the interpreted program"""

    def __init__(self, exc):
        self.exc = exc
        super().__init__(repr(exc))


class EngineHook:
    """current path engine (set by engine.py)"""
    cur = None


def decide(t):
    """fork on a boolean term"""
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    if EngineHook.cur is None:
        raise Unsupported("decision outside an execution")
    return EngineHook.cur.branch(t)


def assume(t):
    EngineHook.cur.assume(t)


def is_symbolic(x):
    return isinstance(x, (Sym, SArr)) or getattr(x, "_symbolic_", False)


def term(x):
    """scalar value -> T"""
    if isinstance(x, Sym):
        return x.t
    if isinstance(x, T):
        return x
    if isinstance(x, SArr) and x.ndim == 0:
        return x.at()
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return term(x[()])
    if isinstance(x, (float, np.floating)) and not math.isfinite(x):
        raise Unsupported("non-finite number in arithmetic")
    try:
        return tm.lift(x)
    except TypeError:
        raise Unsupported(f"term of {type(x).__name__}")


def nterm(x):
    return tm.as_num(term(x))


def is_inf(x):
    return isinstance(x, (float, np.floating)) and math.isinf(x)


def wrap(t, kind=None):
    """T -> python number if constant else Sym"""
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    if t.op == "num":
        v = t.args[0]
        if t.sort == "I" and kind not in ("float",):
            return int(v)
        return float(v)
    return Sym(t, kind)


def kind_of(x):
    if isinstance(x, Sym):
        return x.kind
    if isinstance(x, (bool, np.bool_)):
        return "bool"
    if isinstance(x, (int, np.integer)):
        return "int"
    return "float"


def arith_kind(a, b, div=False):
    if div:
        return "float"
    ks = {kind_of(a), kind_of(b)}
    return "float" if "float" in ks else "int"


_memo_round = {}


class Sym:
    __array_ufunc__ = None
    __slots__ = ("t", "kind", "meta")

    def __init__(self, t, kind=None, meta=None):
        self.t = t
        self.kind = kind or {"I": "int", "R": "float", "B": "bool"}[t.sort]
        self.meta = meta

    def __repr__(self):
        return f"Sym({self.t})"

    def _bin(self, o, f, div=False, swap=False):
        if isinstance(o, (SArr, np.ndarray)):
            return NotImplemented
        if isinstance(o, (str, list, tuple, dict)) or o is None:
            raise SymRaise(TypeError("unsupported operand"))
        if is_inf(o):
            raise Unsupported("arithmetic with inf")
        a, b = nterm(self), nterm(o)
        if swap:
            a, b = b, a
        return wrap(f(a, b), arith_kind(self, o, div))

    def __add__(self, o): return self._bin(o, tm.add)
    def __radd__(self, o): return self._bin(o, tm.add, swap=True)
    def __sub__(self, o): return self._bin(o, tm.sub)
    def __rsub__(self, o): return self._bin(o, tm.sub, swap=True)
    def __mul__(self, o):
        if isinstance(o, list):
            raise Unsupported("list repetition by symbolic count")
        return self._bin(o, tm.mul)
    def __rmul__(self, o): return self.__mul__(o)
    def __truediv__(self, o):
        if is_inf(o):
            return 0.0
        return self._bin(o, tm.div, True)
    def __rtruediv__(self, o): return self._bin(o, tm.div, True, swap=True)
    def __floordiv__(self, o): return self._bin(o, idiv)
    def __rfloordiv__(self, o): return self._bin(o, idiv, swap=True)
    def __mod__(self, o): return self._bin(o, imod)
    def __rmod__(self, o): return self._bin(o, imod, swap=True)
    def __neg__(self): return wrap(tm.mul(tm.num(-1), nterm(self)), "int" if self.kind == "bool" else self.kind)
    def __pos__(self): return self
    def __abs__(self): return wrap(tm.abs_(nterm(self)), self.kind)

    def __pow__(self, o):
        if isinstance(o, (SArr, np.ndarray)):
            return NotImplemented
        return wrap(tm.power(nterm(self), nterm(o)), "float" if self.kind == "float" or isinstance(o, float) else "int")

    def __rpow__(self, o):
        return wrap(tm.power(nterm(o), nterm(self)), "float")

    def _cmp(self, o, f):
        if isinstance(o, (SArr, np.ndarray)):
            return NotImplemented
        if o is None or isinstance(o, str):
            raise SymRaise(TypeError("unorderable"))
        return wrap(f(nterm(self), nterm(o)))

    def __lt__(self, o):
        if is_inf(o): return o > 0
        return self._cmp(o, tm.lt)

    def __le__(self, o):
        if is_inf(o): return o > 0
        return self._cmp(o, tm.le)

    def __gt__(self, o):
        if is_inf(o): return o < 0
        return self._cmp(o, lambda a, b: tm.lt(b, a))

    def __ge__(self, o):
        if is_inf(o): return o < 0
        return self._cmp(o, lambda a, b: tm.le(b, a))

    def __eq__(self, o):
        if is_inf(o): return False
        if o is None or isinstance(o, (str, list, tuple, dict, type)):
            return False
        if isinstance(o, Sym) and o.t.sort == "B" and self.t.sort == "B":
            return wrap(tm.eq(self.t, o.t))
        return self._cmp(o, tm.eq)

    def __ne__(self, o):
        if is_inf(o): return True
        if o is None or isinstance(o, (str, list, tuple, dict, type)):
            return True
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return snot(r)

    def __hash__(self):
        t = self.t if isinstance(self.t, T) else tm.lift(self.t)
        if t.op == "num":
            return hash(t.args[0])
        raise Unsupported("symbolic number used as a key")

    def __and__(self, o):
        if isinstance(o, (SArr, np.ndarray)): return NotImplemented
        return wrap(tm.and_(term(self), term(o)))
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (SArr, np.ndarray)): return NotImplemented
        return wrap(tm.or_(term(self), term(o)))
    __ror__ = __or__

    def __invert__(self):
        if self.kind == "bool":
            return snot(self)
        raise Unsupported("~int")

    def __bool__(self):
        return decide(tm.as_bool(self.t))

    def __int__(self):
        raise Unsupported("int() of symbolic value in native code")

    def __float__(self):
        raise Unsupported("float() of symbolic value in native code")

    def __index__(self):
        raise Unsupported("symbolic value used as a native index")

    def __round__(self, nd=None):
        raise Unsupported("round of symbolic")

    # numpy scalar API
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    @property
    def dtype(self): return dtype_of(self.kind)
    def mean(self): return self
    def sum(self): return self
    def item(self): return self
    def astype(self, dt): return cast_scalar(self, dt)
    def copy(self): return self
    def any(self): return self
    def all(self): return self


def snot(x):
    if isinstance(x, Sym):
        return wrap(tm.not_(tm.as_bool(x.t)))
    return not x


def idiv(a, b):
    return tm.app("idiv", a, b, sort="I")


def imod(a, b):
    if a.sort == "I" and b.sort == "I":
        return tm.app("mod", a, b, sort="I")
    return tm.app("mod", a, b, sort="R")


def dtype_of(kind):
    return {"int": np.dtype(int), "float": np.dtype(float), "bool": np.dtype(bool), "object": np.dtype(object)}[kind]


def kind_from_dtype(dt):
    if dt is None:
        return None
    if isinstance(dt, str) and dt in ("int", "float", "bool"):
        return dt
    d = np.dtype(dt)
    if d.kind in "iu": return "int"
    if d.kind == "f": return "float"
    if d.kind == "b": return "bool"
    return "object"


def cast_term(t, frm, to):
    if to == frm:
        return t
    if to == "bool":
        return tm.as_bool(t)
    t = tm.as_num(t)
    if to == "int" and t.sort == "R":
        return tm.app("trunc", t, sort="I")
    return t


def cast_scalar(x, dt):
    k = kind_from_dtype(dt)
    if not isinstance(x, Sym):
        return {"int": int, "float": float, "bool": bool}[k](x)
    return wrap(cast_term(x.t, x.kind, k), k)


# ---------------------------------------------------------------------- axes
_GIVEN = {}


def given(c, v):
    """v, simplified under the condition c (occurrences of c's conjuncts are replaced by their truth value)"""
    if c is TRUE or c is FALSE or v.op in ("num", "var"):
        return v
    key = (c.id, v.id)
    r = _GIVEN.get(key)
    if r is not None:
        return r[2]
    from .solve import replace_term
    u = v
    for x in (c.args if c.op == "and" else (c,)):
        y, val = (x.args[0], FALSE) if x.op == "not" else (x, TRUE)
        if isinstance(y, T) and y.lb == 0 and y.fv <= u.fv:
            u = replace_term(u, y, val)
    if len(_GIVEN) > 200000:
        _GIVEN.clear()
    _GIVEN[key] = (c, v, u)
    return u


class Axis:
    """one array axis: index space [0,n) restricted by guard (None = all).

    A guarded axis models boolean-mask selection: positions are the selected base
    indices, in order.  Its length is the number of selected indices."""
    __slots__ = ("n", "guard", "tag", "parts")

    def __init__(self, n, guard=None, tag=None, parts=None):
        self.parts = parts      # axes concatenated to this one
        self.n = tm.lift(n) if not isinstance(n, T) else n
        if self.n.op not in ("num", "var"):
            self.n = nm.norm(self.n)
        self.guard = guard
        self.tag = tag

    def length(self):
        if self.guard is None:
            return self.n
        if self.parts is not None:
            return tm.add(*[a.length() for a in self.parts])
        return tm.Sum(self.n, lambda k: tm.iv(self.guard(k)))

    def some(self):
        """the axis is not empty"""
        if self.guard is None:
            return tm.lt(ZERO, self.n)
        if self.parts is not None:
            return tm.or_(*[a.some() for a in self.parts])
        return tm.Exists(self.n, self.guard)

    def guard_at(self, k):
        return TRUE if self.guard is None else self.guard(k)

    def is_one(self):
        return self.guard is None and tm.is_num(self.n, 1)

    def concrete(self):
        return self.guard is None and self.n.op == "num"


def same_axis(a, b):
    """True if provably the same index space; may fork/raise otherwise"""
    if a is b:
        return True
    if a.guard is None and b.guard is None:
        if a.n is b.n:
            return True
        return None
    if a.guard is not None and b.guard is not None and a.n is b.n:
        k = tm.fresh_for(a.n, frozenset())
        ga, gb = a.guard(k), b.guard(k)
        if ga is gb or nm.nf(ga) == nm.nf(gb):
            return True
    return None


def broadcast_axes(xs, ys):
    """broadcast two axis tuples -> (axes, mapx, mapy) where map gives index tuples"""
    nx, ny = len(xs), len(ys)
    n = max(nx, ny)
    out = []
    for j in range(n):
        ax = xs[j - (n - nx)] if j >= n - nx else None
        ay = ys[j - (n - ny)] if j >= n - ny else None
        if ax is None:
            out.append(ay)
        elif ay is None:
            out.append(ax)
        elif same_axis(ax, ay):
            out.append(ax)
        elif ax.is_one():
            out.append(ay)
        elif ay.is_one():
            out.append(ax)
        else:
            if ax.guard is None and ay.guard is None:
                # decide equality of symbolic lengths
                if decide(tm.eq(ax.n, ay.n)):
                    out.append(ax)
                elif decide(tm.eq(ax.n, ONE)):
                    out.append(ay)
                elif decide(tm.eq(ay.n, ONE)):
                    out.append(ax)
                else:
                    raise SymRaise(ValueError(f"operands could not be broadcast together: {ax.n} vs {ay.n}"))
            else:
                raise Unsupported("broadcast of differently masked axes")
    return out


def bidx(axes_src, axes_out, idx):
    """index tuple into src given output index"""
    n, m = len(axes_out), len(axes_src)
    r = []
    for j in range(m):
        a = axes_src[j]
        k = idx[n - m + j]
        o = axes_out[n - m + j]
        if a is not o and a.is_one() and not o.is_one():
            r.append(ZERO)
        else:
            r.append(k)
    return tuple(r)


class SymKey(Sym):
    """symbolic number used as a dictionary key (the interpreter compares keys explicitly)"""
    __slots__ = ()

    def __hash__(self):
        return id(self)


class SArr:
    """array with symbolic shape; elements given by a function of index terms"""
    __array_ufunc__ = None
    _symbolic_ = True

    def __init__(self, axes, fn, kind="float", view=None):
        self.axes = tuple(a if isinstance(a, Axis) else Axis(a) for a in axes)
        self._fn = fn
        self.kind = kind
        self.view = view      # (base, fwd, write) for views
        self.is_input = None
        self.version = 0

    # -- element access
    def snapshot(self):
        """immutable element function of the current contents"""
        if self.view is not None:
            base, fwd, _ = self.view
            f = base.snapshot()
            return lambda *idx: f(*fwd(*idx))
        return self._fn

    def at(self, *idx):
        return self.snapshot()(*idx)

    def set_fn(self, fn):
        if self.view is not None:
            raise Unsupported("rebinding contents of a view")
        self._fn = fn
        self.version += 1

    def write(self, cond_val):
        """cond_val(idx)-> (cond, value) : new[idx] = value if cond else old"""
        if self.view is not None:
            base, fwd, back = self.view
            if back is None:
                raise Unsupported("write through this view")
            def bcv(*bidx_):
                c0, idx = back(*bidx_)
                c, v = cond_val(*idx)
                return tm.and_(c0, c), v
            base.write(bcv)
            return
        old = self._fn
        kind = self.kind

        def new(*idx):
            c, v = cond_val(*idx)
            o = old(*idx)
            if kind == "bool":
                v = tm.as_bool(v)
            elif kind == "int":
                v = cast_term(v, None if v.sort == "R" else "int", "int") if v.sort == "R" else tm.as_num(v)
            else:
                v = tm.as_num(v)
            return tm.ite(c, given(c, v), o)
        self._fn = new
        self.version += 1

    # -- numpy attributes
    @property
    def shape(self):
        return tuple(wrap(a.length()) for a in self.axes)

    @property
    def ndim(self):
        return len(self.axes)

    @property
    def size(self):
        r = 1
        for s in self.shape:
            r = r * s
        return r

    @property
    def dtype(self):
        return dtype_of(self.kind)

    @property
    def T(self):
        f = self.snapshot()
        return SArr(self.axes[::-1], lambda *i: f(*i[::-1]), self.kind)

    def __len__(self):
        raise Unsupported("native len of symbolic array")

    def __repr__(self):
        try:
            ks = [tm.fresh_for(a.n, frozenset()) for a in self.axes]
            return f"SArr{tuple(str(a.length()) for a in self.axes)}[{self.at(*ks)}]"
        except Exception as e:
            return f"SArr<{e}>"

    def __bool__(self):
        if self.ndim == 0 or all(a.is_one() for a in self.axes):
            return decide(tm.as_bool(self.at(*([ZERO] * self.ndim))))
        raise SymRaise(ValueError("The truth value of an array is ambiguous"))

    def __iter__(self):
        raise Unsupported("native iteration over symbolic array")

    __hash__ = object.__hash__

    # -- elementwise
    def _bin(self, o, f, kind=None, swap=False):
        if o is None or isinstance(o, str):
            raise SymRaise(TypeError("unsupported operand type(s) for array"))
        if is_inf(o):
            raise Unsupported("array arithmetic with inf")
        o = to_arr(o)
        return ewise2(f if not swap else (lambda a, b: f(b, a)), self, o, kind)

    def __add__(self, o): return self._bin(o, num2(tm.add), "arith")
    def __radd__(self, o): return self._bin(o, num2(tm.add), "arith", True)
    def __sub__(self, o): return self._bin(o, num2(tm.sub), "arith")
    def __rsub__(self, o): return self._bin(o, num2(tm.sub), "arith", True)
    def __mul__(self, o): return self._bin(o, num2(tm.mul), "arith")
    def __rmul__(self, o): return self._bin(o, num2(tm.mul), "arith", True)
    def __truediv__(self, o):
        if is_inf(o): return ewise1(lambda a: ZERO, self, "float")
        return self._bin(o, num2(tm.div), "float")
    def __rtruediv__(self, o): return self._bin(o, num2(tm.div), "float", True)
    def __floordiv__(self, o): return self._bin(o, num2(idiv), "arith")
    def __mod__(self, o): return self._bin(o, num2(imod), "arith")
    def __neg__(self): return ewise1(lambda a: tm.mul(tm.num(-1), tm.as_num(a)), self, self.kind)
    def __pos__(self): return self
    def __abs__(self): return ewise1(lambda a: tm.abs_(tm.as_num(a)), self, self.kind)
    def __pow__(self, o):
        if not isinstance(o, (SArr, np.ndarray)):
            return ewise1(lambda a: tm.power(tm.as_num(a), nterm(o)), self, "float" if isinstance(o, float) else self.kind)
        return self._bin(o, num2(tm.power), "float")

    def _cmp(self, o, f, swap=False):
        if o is None or isinstance(o, str):
            if f is tm.eq:
                return ewise1(lambda a: FALSE, self, "bool") if not isinstance(o, str) else False
            if f is tm.ne:
                return ewise1(lambda a: TRUE, self, "bool") if not isinstance(o, str) else True
            raise SymRaise(TypeError("unorderable"))
        if is_inf(o):
            pos = o > 0
            v = {tm.lt: pos, tm.le: pos, tm.eq: False, tm.ne: True}[f]
            if swap and f in (tm.lt, tm.le):
                v = not pos
            return ewise1(lambda a: TRUE if v else FALSE, self, "bool")
        return self._bin(o, num2(f), "bool", swap)

    def __lt__(self, o): return self._cmp(o, tm.lt)
    def __le__(self, o): return self._cmp(o, tm.le)
    def __gt__(self, o): return self._cmp(o, tm.lt, True)
    def __ge__(self, o): return self._cmp(o, tm.le, True)
    def __eq__(self, o): return self._cmp(o, tm.eq)
    def __ne__(self, o): return self._cmp(o, tm.ne)
    def __and__(self, o): return self._bin(o, lambda a, b: tm.and_(a, b), "bool")
    def __rand__(self, o): return self._bin(o, lambda a, b: tm.and_(a, b), "bool")
    def __or__(self, o): return self._bin(o, lambda a, b: tm.or_(a, b), "bool")
    def __ror__(self, o): return self._bin(o, lambda a, b: tm.or_(a, b), "bool")

    def __invert__(self):
        if self.kind != "bool":
            raise Unsupported("~ on non-bool array")
        return ewise1(tm.not_, self, "bool")

    def inplace(self, o, opname):
        """a op= o"""
        r = getattr(self, opname)(o)
        if r is NotImplemented:
            raise Unsupported(opname)
        if len(r.axes) != len(self.axes):
            raise SymRaise(ValueError("non-broadcastable output operand"))
        for x, y in zip(r.axes, self.axes):
            if same_axis(x, y):
                continue
            if x.guard is None and y.guard is None:
                if not decide(tm.eq(x.n, y.n)):
                    raise SymRaise(ValueError("non-broadcastable output operand"))
            else:
                raise Unsupported("inplace on masked axes")
        if self.kind == "int" and r.kind == "float" or (self.kind == "bool" and r.kind != "bool"):
            raise SymRaise(np.core._exceptions._UFuncOutputCastingError(np.add, "same_kind", np.dtype(float), np.dtype(int), 0)
                           if False else TypeError("Cannot cast ufunc output with casting rule 'same_kind'"))
        f = r.snapshot()
        if self.view is None:
            self.set_fn(f)
        else:
            self.write(lambda *i: (TRUE, f(*i)))
        return self

    # -- matmul
    def __matmul__(self, o): return matmul(self, to_arr(o))
    def __rmatmul__(self, o): return matmul(to_arr(o), self)
    def dot(self, o):
        if not is_symbolic(o) and not isinstance(o, np.ndarray) or isinstance(o, Sym):
            return self * o
        return matmul(self, to_arr(o))

    # -- reductions
    def sum(self, axis=None, keepdims=False, dtype=None): return reduce_sum(self, axis, keepdims)
    def mean(self, axis=None, keepdims=False, dtype=None):
        s = reduce_sum(self, axis, keepdims)
        n = red_count(self, axis)
        r = to_float(s / wrap(n))
        if axis is None and not keepdims and OPAQUE_FN[1] is not None:
            r = wrap(OPAQUE_FN[1](term(r)))
        return r

    def var(self, axis=None, ddof=0, keepdims=False):
        m = self.mean(axis=axis, keepdims=True) if axis is not None else self.mean()
        d = self - m
        s = reduce_sum(d * d, axis, keepdims)
        r = s / (wrap(red_count(self, axis)) - ddof)
        if axis is None and OPAQUE_FN[0] is not None:
            r = wrap(OPAQUE_FN[0](term(r)))
        return r

    def std(self, axis=None, ddof=0, keepdims=False): return sqrt(self.var(axis, ddof, keepdims))
    def max(self, axis=None, keepdims=False): return extremum(self, "max", axis, keepdims)
    def min(self, axis=None, keepdims=False): return extremum(self, "min", axis, keepdims)
    def argmax(self, axis=None): return argext(self, "argmax", axis)
    def argmin(self, axis=None): return argext(self, "argmin", axis)
    def any(self, axis=None): return quant(self, "exists", axis)
    def all(self, axis=None): return quant(self, "forall", axis)
    def prod(self, axis=None): return reduce_prod(self, axis)

    def cumsum(self, axis=None):
        if self.ndim != 1 and axis is None:
            raise Unsupported("cumsum flat")
        ax = 0 if axis is None else axis % self.ndim
        f = self.snapshot()
        a = self.axes[ax]
        if a.guard is not None:
            raise Unsupported("cumsum masked")

        def fn(*i):
            return tm.Sum(tm.add(i[ax], ONE), lambda k: tm.as_num(f(*(i[:ax] + (k,) + i[ax + 1:]))))
        return SArr(self.axes, fn, "int" if self.kind == "bool" else self.kind)

    def cumprod(self, axis=None):
        if self.ndim != 1 and axis is None:
            raise Unsupported("cumprod flat")
        ax = 0 if axis is None else axis % self.ndim
        f = self.snapshot()
        a = self.axes[ax]
        if a.guard is not None or a.n.op != "num" or a.n.args[0] > 8:
            raise Unsupported("cumprod of a symbolic axis")
        N = int(a.n.args[0])

        def upto(i, k):
            t = ONE
            for j in range(k + 1):
                t = tm.mul(t, tm.as_num(f(*(i[:ax] + (tm.num(j),) + i[ax + 1:]))))
            return t

        def fn(*i):
            if i[ax].op == "num":
                return upto(i, int(i[ax].args[0]))
            t = upto(i, N - 1)
            for k in range(N - 2, -1, -1):
                t = tm.ite(tm.eq(i[ax], tm.num(k)), upto(i, k), t)
            return t
        return SArr(self.axes, fn, "int" if self.kind == "bool" else self.kind)

    # -- shape manipulation
    def astype(self, dt, copy=True):
        k = kind_from_dtype(dt)
        fr = self.kind
        return ewise1(lambda a: cast_term(a, fr, k), self, k)

    def copy(self, order=None): return SArr(self.axes, self.snapshot(), self.kind)

    def __getattr__(self, name):
        if not name.startswith("__") and hasattr(np.ndarray, name):
            raise UnsupportedAttr(f"array attribute {name}")
        raise AttributeError(f"'SArr' object has no attribute '{name}'")

    def diagonal(self):
        if self.ndim != 2 or any(a.guard is not None for a in self.axes):
            raise Unsupported("diagonal")
        if not decide(tm.eq(self.axes[0].n, self.axes[1].n)):
            raise Unsupported("diagonal of a rectangular array")
        f = self.snapshot()
        return SArr((self.axes[0],), lambda i: f(i, i), self.kind)
    def tolist(self): return SList.from_arr(self)
    def item(self):
        if all(a.is_one() for a in self.axes):
            return wrap(self.at(*([ZERO] * self.ndim)), self.kind)
        raise Unsupported("item of symbolic array")

    def fill(self, v):
        t = term(v)
        self.write(lambda *i: (TRUE, t))

    def flatten(self, order=None): return self.reshape(-1)
    def ravel(self): return self.reshape(-1)
    def squeeze(self, axis=None):
        keep = [j for j, a in enumerate(self.axes) if not (a.is_one() and (axis is None or j == axis % self.ndim))]
        f = self.snapshot()

        def fn(*i):
            full = [ZERO] * len(self.axes)
            for p, j in enumerate(keep):
                full[j] = i[p]
            return f(*full)
        return SArr([self.axes[j] for j in keep], fn, self.kind)

    def transpose(self, *axes):
        if not axes:
            return self.T
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        f = self.snapshot()
        inv_ = [axes.index(j) for j in range(len(axes))]
        return SArr([self.axes[j] for j in axes], lambda *i: f(*[i[inv_[j]] for j in range(len(axes))]), self.kind)

    def swapaxes(self, a, b):
        p = list(range(self.ndim))
        p[a], p[b] = p[b], p[a]
        return self.transpose(*p)

    def reshape(self, *shape, order=None):
        from .shim_np import reshape
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def repeat(self, reps, axis=None):
        from .shim_np import np_repeat
        return np_repeat(self, reps, axis)

    def argsort(self, axis=-1, **kw):
        from .shim_np import np_argsort
        return np_argsort(self, axis=axis)

    # -- indexing
    def __getitem__(self, key):
        from .indexing import getitem
        return getitem(self, key)

    def __setitem__(self, key, value):
        from .indexing import setitem
        setitem(self, key, value)


def num2(f):
    return lambda a, b: f(tm.as_num(a), tm.as_num(b))


def to_float(x):
    return x


def res_kind(kind, *ks):
    if kind == "arith":
        if "float" in ks: return "float"
        return "int"
    return kind


def ewise1(f, a, kind):
    g = a.snapshot()
    return SArr(a.axes, lambda *i: f(g(*i)), kind)


def ewise2(f, a, b, kind):
    axes = broadcast_axes(a.axes, b.axes)
    fa, fb = a.snapshot(), b.snapshot()
    aa, ba = a.axes, b.axes
    r = SArr(axes, lambda *i: f(fa(*bidx(aa, axes, i)), fb(*bidx(ba, axes, i))), res_kind(kind, a.kind, b.kind))
    return r if r.ndim else wrap(r.at(), r.kind)


def ewise3(f, a, b, c, kind):
    axes = broadcast_axes(broadcast_axes(a.axes, b.axes), c.axes)
    fa, fb, fc = a.snapshot(), b.snapshot(), c.snapshot()
    aa, ba, ca = a.axes, b.axes, c.axes
    return SArr(axes, lambda *i: f(fa(*bidx(aa, axes, i)), fb(*bidx(ba, axes, i)), fc(*bidx(ca, axes, i))), kind)


def to_arr(x):
    if isinstance(x, SArr):
        return x
    if isinstance(x, Sym):
        t = x.t
        return SArr((), lambda: t, x.kind)
    if isinstance(x, np.ndarray):
        return from_np(x)
    if isinstance(x, (bool, int, float, np.bool_, np.integer, np.floating)):
        t = term(x)
        return SArr((), lambda: t, kind_of(x))
    if isinstance(x, (list, tuple)):
        st = getattr(x, "symtail", None)
        if st is not None:
            tail = st.to_arr()
            if list.__len__(x) == 0:
                return tail
            from . import shim_np
            return shim_np.np_concat([arr_from_list(list.__getitem__(x, slice(None))), tail])
        return arr_from_list(x)
    if isinstance(x, SList):
        return x.to_arr()
    if hasattr(x, "to_arr"):
        return x.to_arr()
    raise Unsupported(f"array from {type(x).__name__}")


def arr_from_list(xs):
    """python list of scalars / equal-shape arrays -> SArr (leading concrete axis)"""
    xs = [to_arr(x) for x in xs]
    if not xs:
        return SArr((0,), lambda i: ZERO, "float")
    axes = xs[0].axes
    for x in xs[1:]:
        if len(x.axes) != len(axes):
            raise Unsupported("ragged list")
        for a, b in zip(x.axes, axes):
            if not same_axis(a, b):
                if not decide(tm.eq(a.length(), b.length())):
                    raise SymRaise(ValueError("inhomogeneous shape"))
    fs = [x.snapshot() for x in xs]
    kinds = [x.kind for x in xs]
    kind = "float" if "float" in kinds else "int" if "int" in kinds else "bool"

    def fn(i, *rest):
        return select(i, [f(*rest) for f in fs], kind)
    return SArr((Axis(tm.num(len(xs))),) + axes, fn, kind)


def select(i, vals, kind=None):
    """vals[i] as a term"""
    if kind != "bool":
        vals = [tm.as_num(v) for v in vals]
    if i.op == "num":
        return vals[int(i.args[0])]
    r = vals[-1]
    for j in range(len(vals) - 2, -1, -1):
        r = tm.ite(tm.eq(i, tm.num(j)), vals[j], r)
    return r


def const_np(a, cap=200):
    """the numpy array of a symbolic one with known shape and entries, or None"""
    if isinstance(a, np.ndarray):
        return a if a.dtype.kind in "iufb" and a.size <= cap else None
    if not isinstance(a, SArr) or not all(x.concrete() for x in a.axes):
        return None
    sh = tuple(int(x.n.args[0]) for x in a.axes)
    if int(np.prod(sh)) > cap:
        return None
    from . import norm as nm
    out = np.zeros(sh, dtype={"int": int, "bool": bool}.get(a.kind, float))
    for i in np.ndindex(*sh):
        t = nm.norm(tm.as_num(a.at(*[tm.num(k) for k in i])))
        if t.op != "num":
            return None
        out[i] = t.args[0]
    return out


def from_np(x):
    if x.dtype.kind not in "iufb":
        raise Unsupported(f"numpy array of dtype {x.dtype}")
    kind = {"i": "int", "u": "int", "f": "float", "b": "bool"}[x.dtype.kind]
    x = x.copy()
    big = x.size > 400

    def fn(*idx):
        def rec(arr, idx):
            if big and idx and idx[0].op != "num":
                raise Unsupported("large concrete array")
            if not idx:
                return term(arr[()] if isinstance(arr, np.ndarray) else arr)
            i = idx[0]
            if i.op == "num":
                return rec(arr[int(i.args[0])], idx[1:])
            if arr.shape[0] == 0:
                return ZERO
            sub_ = [rec(arr[j], idx[1:]) for j in range(arr.shape[0])]
            if all(s is sub_[0] for s in sub_):
                return sub_[0]
            if arr.ndim == 1 and arr.dtype.kind in "iu" and all(int(arr[j]) == j for j in range(arr.shape[0])):
                return i
            return select(i, sub_, kind)
        return rec(x, idx)
    return SArr([Axis(tm.num(s)) for s in x.shape], fn, kind)


# ----------------------------------------------------------------- reductions
def norm_axis(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (tuple, list)):
        return tuple(a % nd for a in axis)
    if not isinstance(axis, int):
        raise Unsupported("symbolic axis")
    if axis >= nd or axis < -nd:
        raise SymRaise(np.AxisError(axis, nd))
    return (axis % nd,)


def red_count(a, axis):
    ax = norm_axis(axis, a.ndim)
    return tm.mul(*[a.axes[j].length() for j in ax]) if ax else ONE


def reduce_generic(a, axis, keepdims, comb, kind):
    """comb(n, guard, body) folds one axis; applied from the last axis inwards"""
    ax = norm_axis(axis, a.ndim)
    f = a.snapshot()
    axes = a.axes
    keep = [j for j in range(a.ndim) if j not in ax]
    if keepdims:
        oaxes = [axes[j] if j in keep else Axis(ONE) for j in range(a.ndim)]
    else:
        oaxes = [axes[j] for j in keep]

    def fn(*i):
        full = [None] * a.ndim
        if keepdims:
            for j in keep:
                full[j] = i[j]
        else:
            for p, j in enumerate(keep):
                full[j] = i[p]

        def rec(todo):
            if not todo:
                return f(*full)
            j = todo[0]

            def body(k):
                full[j] = k
                r = rec(todo[1:])
                full[j] = None
                return r
            return comb(axes[j].n, axes[j].guard, body)
        return rec(list(ax))
    r = SArr(oaxes, fn, kind)
    if not oaxes:
        return wrap(r.at(), kind)
    return r


def reduce_sum(a, axis=None, keepdims=False):
    kind = "int" if a.kind in ("bool", "int") else "float"

    def comb(n, g, body):
        if g is None:
            return tm.Sum(n, lambda k: tm.as_num(body(k)))
        return tm.Sum(n, lambda k: tm.mul(tm.iv(g(k)), tm.as_num(body(k))))
    return reduce_generic(a, axis, keepdims, comb, kind)


def reduce_prod(a, axis=None):
    def comb(n, g, body):
        if g is None:
            return tm.Prod(n, lambda k: tm.as_num(body(k)))
        return tm.Prod(n, lambda k: tm.ite(g(k), tm.as_num(body(k)), ONE))
    return reduce_generic(a, axis, False, comb, a.kind)


def extremum(a, op, axis=None, keepdims=False):
    for j in norm_axis(axis, a.ndim):
        g = a.axes[j].guard
        if g is not None and not decide(tm.bind("exists", a.axes[j].n, lambda k: tm.as_bool(g(k)))):
            raise SymRaise(ValueError("zero-size array to reduction operation"))
        if a.axes[j].n.op == "num" and a.axes[j].n.args[0] == 0:
            raise SymRaise(ValueError("zero-size array to reduction operation"))

    def comb(n, g, body):
        if g is None:
            return tm.bind(op, n, lambda k: tm.as_num(body(k)))
        # rows outside the mask repeat the first row inside it
        w = tm.bind("argmax", n, lambda k: tm.iv(tm.as_bool(g(k))))
        return tm.bind(op, n, lambda k: tm.ite(tm.as_bool(g(k)), tm.as_num(body(k)), tm.as_num(body(w))))
    return reduce_generic(a, axis, keepdims, comb, a.kind)


def argext(a, op, axis=None):
    if axis is None:
        if a.ndim != 1:
            raise Unsupported("flat argmax")
        axis = 0
    if a.axes[axis].guard is not None:
        raise Unsupported("argmax over masked axis")

    def comb(n, g, body):
        return tm.bind(op, n, lambda k: tm.as_num(body(k)))
    return reduce_generic(a, axis, False, comb, "int")


def quant(a, op, axis=None):
    def comb(n, g, body):
        if g is None:
            return tm.bind(op, n, lambda k: tm.as_bool(body(k)))
        if op == "exists":
            return tm.bind(op, n, lambda k: tm.and_(g(k), tm.as_bool(body(k))))
        return tm.bind(op, n, lambda k: tm.implies(g(k), tm.as_bool(body(k))))
    return reduce_generic(a, axis, False, comb, "bool")


def sqrt(x):
    if isinstance(x, SArr):
        return ewise1(lambda a: tm.app("sqrt", tm.as_num(a)), x, "float")
    if isinstance(x, Sym):
        return wrap(tm.app("sqrt", nterm(x)), "float")
    return np.sqrt(x)


def matmul(a, b):
    if a.ndim == 0 or b.ndim == 0:
        raise SymRaise(ValueError("matmul of scalars"))
    if b.ndim > 2:
        raise Unsupported("matmul of >2-d arrays")
    ka, kb = a.axes[-1], b.axes[0]
    if not same_axis(ka, kb):
        if ka.guard is None and kb.guard is None:
            if not decide(tm.eq(ka.n, kb.n)):
                raise SymRaise(ValueError("matmul: mismatch in core dimension"))
        else:
            raise Unsupported("matmul on masked axes")
    fa, fb = a.snapshot(), b.snapshot()
    oa = a.axes[:-1]
    ob = b.axes[1:]
    na = len(oa)
    g = ka.guard

    def fn(*i):
        ia, ib = i[:na], i[na:]

        def body(k):
            v = tm.mul(tm.as_num(fa(*ia, k)), tm.as_num(fb(k, *ib)))
            return v if g is None else tm.mul(tm.iv(g(k)), v)
        return tm.Sum(ka.n, body)
    kind = res_kind("arith", a.kind, b.kind)
    r = SArr(oa + ob, fn, kind)
    return r if r.ndim else wrap(r.at(), kind)


class SList:
    """python list of symbolic length: elements fn(k), k<n (optionally guarded)"""
    _symbolic_ = True

    def __init__(self, n, fn, guard=None):
        self.axis = Axis(n, guard)
        self.fn = fn

    @property
    def n(self):
        return self.axis.n

    @staticmethod
    def from_arr(a):
        f = a.snapshot()
        if a.ndim == 1:
            return SList(a.axes[0].n, lambda k: wrap(f(k), a.kind), a.axes[0].guard)
        return SList(a.axes[0].n, lambda k: SArr(a.axes[1:], lambda *i: f(k, *i), a.kind), a.axes[0].guard)

    def to_arr(self):
        n = self.n
        k0 = tm.fresh("q", "I", (ZERO, n))
        e = to_arr(self.fn(k0))
        fn = self.fn

        def f(k, *i):
            return to_arr(fn(k)).at(*i)
        return SArr((self.axis,) + e.axes, f, e.kind)

    def __getitem__(self, k):
        if isinstance(k, slice):
            raise Unsupported("slice of symbolic list")
        t = term(k)
        if self.axis.guard is not None:
            raise Unsupported("index of filtered list")
        if decide(tm.lt(t, ZERO)):
            t = tm.add(t, self.n)
        if not decide(tm.and_(tm.le(ZERO, t), tm.lt(t, self.n))):
            raise SymRaise(IndexError("list index out of range"))
        return self.fn(t)

    def append(self, x):
        raise Unsupported("append to symbolic list")

    def __len__(self):
        raise Unsupported("native len of symbolic list")


# a unit may ask for the variances computed by the code to be named: a symbol determined by the
# normal form of the variance (abstraction only; set by Decl.opaque_var, cleared for every unit)
OPAQUE_FN = [None, None]
