"""Assumed contracts of builtins and numpy (the trusted library models)."""
from __future__ import annotations
import builtins
import math
import types
from fractions import Fraction
import numpy as np
import scipy.stats
from . import terms as tm
from .terms import T, ZERO, ONE, TRUE, FALSE
from .values import *
from .values import Sym, SArr, SList, Axis, Unsupported, SymRaise, EngineHook, is_inf, same_axis
from . import values as V
from . import norm as nm
from .interp import shim, SHIM, TrackList, deep_symbolic, IFunc, NATIVE_OK, native
from .loops import SRange, SZip, SEnum, sym_iter, SymIter
from .indexing import bound_obligation, quantify

RANKREG = {}     # norm term id of a masked length -> Axis


# ------------------------------------------------------------------ builtins
def _iter(x):
    """concrete python list or SymIter"""
    r = sym_iter(x)
    if r is None:
        r = list(x)
    return r


@shim(builtins.len)
def b_len(x):
    if isinstance(x, SArr):
        if x.ndim == 0:
            raise SymRaise(TypeError("len() of unsized object"))
        return wrap(x.axes[0].length(), "int")
    if isinstance(x, SList):
        return wrap(x.axis.length(), "int")
    if isinstance(x, TrackList) and x.symtail is not None:
        return wrap(tm.add(tm.num(list.__len__(x)), x.symtail.axis.length()), "int")
    if isinstance(x, SRange):
        return wrap(x.n, "int")
    if isinstance(x, Sym):
        raise SymRaise(TypeError("object of type has no len()"))
    if hasattr(x, "sym_len"):
        return x.sym_len()
    return len(x)


@shim(builtins.range)
def b_range(*a):
    if not deep_symbolic(a):
        return range(*[int(x) if isinstance(x, np.integer) else x for x in a])
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    if st != 1:
        raise Unsupported("symbolic range with step")
    for x in a:
        if isinstance(x, Sym) and x.kind == "float":
            raise SymRaise(TypeError("'float' object cannot be interpreted as an integer"))
    lo, hi = nterm(lo), nterm(hi)
    n = nm.norm(tm.sub(hi, lo))
    if not decide(tm.le(ZERO, n)):
        n = ZERO
    return SRange(lo, n)


@shim(builtins.zip)
def b_zip(*a):
    if any(sym_iter(x) is not None for x in a):
        return SZip(a)
    return list(zip(*a))


@shim(builtins.enumerate)
def b_enum(x, start=0):
    if sym_iter(x) is not None:
        return SEnum(x, start)
    return list(enumerate(x, start))


@shim(builtins.isinstance)
def b_isinstance(x, c):
    cs = c if isinstance(c, tuple) else (c,)
    flat = []
    for y in cs:
        flat.extend(y if isinstance(y, tuple) else (y,))
    if isinstance(x, Sym):
        ok = {"int": (int, np.integer, np.int64, object), "float": (float, np.floating, np.float64, object),
              "bool": (bool, np.bool_, int, object)}[x.kind]
        import numbers
        if x.kind in ("int", "float"):
            ok = ok + (np.number, np.generic, numbers.Number, numbers.Real) + ((numbers.Integral,) if x.kind == "int" else ())
        return any(y in ok for y in flat)
    if isinstance(x, SArr):
        return any(y in (np.ndarray, object) for y in flat)
    if isinstance(x, SList):
        return any(y in (list, object) for y in flat)
    if hasattr(x, "sym_isinstance"):
        return any(x.sym_isinstance(y) for y in flat)
    return isinstance(x, tuple(flat))


@shim(builtins.issubclass)
def b_issub(a, b):
    return issubclass(a, b)


@shim(builtins.type)
def b_type(x):
    if isinstance(x, Sym):
        return {"int": int, "float": float, "bool": bool}[x.kind]
    if isinstance(x, SArr):
        return np.ndarray
    return type(x)


@shim(builtins.int)
def b_int(x=0, *a):
    if isinstance(x, SArr) and all(ax.is_one() for ax in x.axes):
        x = x.item()
    if isinstance(x, Sym):
        return wrap(V.cast_term(x.t, x.kind, "int"), "int")
    if deep_symbolic(x):
        raise Unsupported("int() of symbolic container")
    return int(x, *a)


def _np_int(ty):
    def conv(x=0):
        return b_int(x) if deep_symbolic(x) else ty(x)
    return conv


for _ty in (np.int32, np.int64):
    shim(_ty)(_np_int(_ty))


@shim(builtins.float)
def b_float(x=0.0):
    if isinstance(x, SArr) and all(ax.is_one() for ax in x.axes):
        x = x.item()
    if isinstance(x, Sym):
        return Sym(tm.as_num(x.t), "float")
    return float(x)


@shim(builtins.bool)
def b_bool(x=False):
    if isinstance(x, Sym):
        return wrap(tm.as_bool(x.t))
    return bool(x)


@shim(builtins.abs)
def b_abs(x):
    return abs(x)


@shim(builtins.sum)
def b_sum(x, start=0):
    it = _iter(x)
    if isinstance(it, SymIter):
        k = tm.fresh("s", "I", (ZERO, it.n))
        e = it.elem(k)
        if isinstance(e, SArr):
            f = e.snapshot()
            def fn(*i):
                b = tm.as_num(f(*i))
                if it.guard is not None:
                    b = tm.mul(tm.iv(it.guard(k)), b)
                return tm.bind_var("sum", it.n, k, b)
            return SArr(e.axes, fn, e.kind) + start
        b = nterm(e)
        if it.guard is not None:
            b = tm.mul(tm.iv(it.guard(k)), b)
        return wrap(tm.bind_var("sum", it.n, k, b), kind_of(e)) + start
    r = start
    for y in it:
        r = r + y
    return r


def _minmax(op):
    def g(*a, key=None, default=None):
        if len(a) == 1:
            it = _iter(a[0])
            if isinstance(it, SymIter):
                if it.guard is not None or key is not None:
                    raise Unsupported("min/max over filtered iterable")
                return to_arr(a[0]).max() if op == "max" else to_arr(a[0]).min()
            xs = it
        else:
            xs = list(a)
        if key is not None:
            if not xs:
                return default
            best, kb = xs[0], key(xs[0])
            for y in xs[1:]:
                ky = key(y)
                if decide(term(kb < ky if op == "max" else ky < kb)):
                    best, kb = y, ky
            return best
        if not deep_symbolic(xs):
            return (max if op == "max" else min)(xs)
        r = xs[0]
        for y in xs[1:]:
            if is_inf(r) or is_inf(y):
                big = r if is_inf(r) else y
                other = y if big is r else r
                if (big > 0) == (op == "max"):
                    r = big
                else:
                    r = other
                continue
            kd = "float" if "float" in (kind_of(r), kind_of(y)) else "int"
            r = wrap((tm.max2 if op == "max" else tm.min2)(nterm(r), nterm(y)), kd)
        return r
    return g


SHIM[id(builtins.max)] = _minmax("max")
SHIM[id(builtins.min)] = _minmax("min")


@shim(builtins.any)
def b_any(x):
    it = _iter(x)
    if isinstance(it, SymIter):
        return to_arr(x).any() if not isinstance(x, TrackList) else x.symtail.to_arr().any()
    ts = [term(y) if isinstance(y, Sym) else (TRUE if y else FALSE) for y in it]
    return wrap(tm.or_(*ts))


@shim(builtins.all)
def b_all(x):
    it = _iter(x)
    if isinstance(it, SymIter):
        return to_arr(x).all() if not isinstance(x, TrackList) else x.symtail.to_arr().all()
    ts = [term(y) if isinstance(y, Sym) else (TRUE if y else FALSE) for y in it]
    return wrap(tm.and_(*ts))


@shim(builtins.map)
def b_map(f, *its):
    raise Unsupported("map")


@shim(builtins.sorted)
def b_sorted(x, key=None, reverse=False):
    if deep_symbolic(x):
        from .interp import sort_order
        x = list(_iter(x))
        return TrackList(x[j] for j in sort_order(x, key, reverse))
    return TrackList(sorted(x, key=key, reverse=reverse))


@shim(builtins.round)
def b_round(x, nd=None):
    if isinstance(x, Sym):
        if nd is None:
            return wrap(tm.app("round", x.t, sort="I"), "int")
        raise Unsupported("round digits")
    return round(x) if nd is None else round(x, nd)


@shim(builtins.print)
def b_print(*a, **k):
    return None


@shim(builtins.hasattr)
def b_hasattr(o, n):
    return hasattr(o, n)


@shim(builtins.getattr)
def b_getattr(o, n, *d):
    return getattr(o, n, *d)


@shim(builtins.setattr)
def b_setattr(o, n, v):
    return setattr(o, n, v)


@shim(builtins.callable)
def b_callable(o):
    return isinstance(o, IFunc) or callable(o)


@shim(builtins.iter)
def b_iter(o):
    raise Unsupported("iter()")


@shim(builtins.reversed)
def b_reversed(o):
    if isinstance(o, SArr):
        return o[::-1]
    it = _iter(o)
    if isinstance(it, SymIter):
        if it.guard is not None:
            raise Unsupported("reversed filtered")
        return SList(it.n, lambda k: it.elem(nm.norm(tm.sub(tm.sub(it.n, ONE), k))))
    return TrackList(reversed(it))


# -------------------------------------------------------------------- numpy
def dims(shape):
    if isinstance(shape, (tuple, list)):
        return tuple(_dim(s) for s in shape)
    return (_dim(shape),)


def _dim(s):
    if isinstance(s, Sym) and s.kind == "float":
        raise SymRaise(TypeError("'float' object cannot be interpreted as an integer"))
    if isinstance(s, float):
        raise SymRaise(TypeError("'float' object cannot be interpreted as an integer"))
    t = nterm(s)
    n = nm.norm(t)
    if n.id in RANKREG:
        return RANKREG[n.id]
    if n.op == "num" and n.args[0] < 0:
        raise SymRaise(ValueError("negative dimensions are not allowed"))
    return Axis(n)


def const_arr(shape, v, dtype, default="float"):
    kind = V.kind_from_dtype(dtype) or default
    t = term(v)
    if kind == "bool":
        t = tm.as_bool(t)
    return SArr(dims(shape), lambda *i: t, kind)


@shim(np.zeros, np.empty)
def np_zeros(shape, dtype=float, order=None):
    return const_arr(shape, 0, dtype)


@shim(np.ones)
def np_ones(shape, dtype=float, order=None):
    return const_arr(shape, 1, dtype)


@shim(np.full)
def np_full(shape, v, dtype=None):
    if isinstance(v, float) and not math.isfinite(v):
        raise Unsupported("np.full with non-finite value")
    return const_arr(shape, v, dtype, V.kind_of(v))


def like(a, v, dtype):
    a = to_arr(a)
    k = V.kind_from_dtype(dtype) or a.kind
    t = term(v)
    t = tm.as_bool(t) if k == "bool" else t
    return SArr(a.axes, lambda *i: t, k)


@shim(np.zeros_like, np.empty_like)
def np_zeros_like(a, dtype=None): return like(a, 0, dtype)


@shim(np.ones_like)
def np_ones_like(a, dtype=None): return like(a, 1, dtype)


@shim(np.full_like)
def np_full_like(a, v, dtype=None): return like(a, v, dtype)


@shim(np.arange)
def np_arange(*a, dtype=None, **kw):
    if kw:
        if set(kw) - {"start", "stop", "step"}:
            raise Unsupported("np.arange arguments")
        if a and "start" not in kw and len(a) == 1 and "stop" not in kw:
            a = (0, a[0], kw["step"])
        else:
            names = ["start", "stop", "step"]
            v = dict(zip(names, a), **kw)
            if "stop" not in v:
                v = dict(start=0, stop=v["start"])
            a = (v.get("start", 0), v["stop"], v.get("step", 1))
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    if not deep_symbolic(a):
        x = np.arange(*a, dtype=dtype)
        if x.size > 24 and x.dtype.kind == "i" and st == 1:
            l0 = tm.num(int(x[0]))
            return SArr((tm.num(x.size),), lambda i: tm.add(l0, i), "int")
        return V.from_np(x) if x.size <= 400 else x
    if any(kind_of(x) == "float" for x in a):
        raise Unsupported("float arange")
    if st != 1:
        if isinstance(st, int) and st == -1:
            n = nm.norm(tm.sub(nterm(lo), nterm(hi)))
            if not decide(tm.le(ZERO, n)):
                n = ZERO
            l = nterm(lo)
            return SArr((n,), lambda i: tm.sub(l, i), "int")
        raise Unsupported("arange with step")
    n = nm.norm(tm.sub(nterm(hi), nterm(lo)))
    l = nterm(lo)
    if n.id in RANKREG and l is ZERO:
        ax = RANKREG[n.id]
        r = SArr((ax,), lambda i: rank_term(ax, i), "int")
        r.rank_of = ax
        return r
    if not decide(tm.le(ZERO, n)):
        n = ZERO
    return SArr((n,), lambda i: tm.add(l, i), "int")


def rank_term(ax, i):
    return tm.Sum(i, lambda k: tm.iv(ax.guard(k)))


_old_length = Axis.length


def _length(self):
    r = _old_length(self)
    if self.guard is not None:
        RANKREG[nm.norm(r).id] = self
    return r


Axis.length = _length


@shim(np.array, np.asarray, np.asanyarray, np.ascontiguousarray)
def np_array(x, dtype=None, copy=True, ndmin=0):
    if not deep_symbolic(x) and not isinstance(x, (IFunc,)):
        if isinstance(x, np.ndarray) and x.dtype.kind not in "iufb":
            return np.array(x, dtype=dtype)
        y = np.array(x, dtype=dtype)
        if y.dtype.kind in "iufb" and y.size <= 400 and (y.dtype.kind != "f" or np.isfinite(y).all()):
            return V.from_np(y)
        return y
    if isinstance(x, TrackList) and x.symtail is not None:
        if list.__len__(x):
            raise Unsupported("np.array of mixed list")
        x = x.symtail
    a = to_arr(x)
    k = V.kind_from_dtype(dtype) or a.kind
    r = a.astype(k) if k != a.kind else a.copy()
    return r


@shim(np.copy)
def np_copy(x): return to_arr(x).copy()


@shim(np.sum)
def np_sum(x, axis=None, keepdims=False, **kw): return to_arr(x).sum(axis=axis, keepdims=keepdims)


@shim(np.mean)
def np_mean(x, axis=None, keepdims=False): return to_arr(x).mean(axis=axis, keepdims=keepdims)


@shim(np.var)
def np_var(x, axis=None, ddof=0): return to_arr(x).var(axis=axis, ddof=ddof)


@shim(np.std)
def np_std(x, axis=None, ddof=0): return to_arr(x).std(axis=axis, ddof=ddof)


@shim(np.max, np.amax)
def np_max(x, axis=None, keepdims=False): return to_arr(x).max(axis=axis, keepdims=keepdims)


@shim(np.min, np.amin)
def np_min(x, axis=None, keepdims=False): return to_arr(x).min(axis=axis, keepdims=keepdims)


@shim(np.argmax)
def np_argmax(x, axis=None): return to_arr(x).argmax(axis=axis)


@shim(np.argmin)
def np_argmin(x, axis=None): return to_arr(x).argmin(axis=axis)


@shim(np.any)
def np_any(x, axis=None):
    if isinstance(x, (Sym, bool)): return x
    return to_arr(x).any(axis=axis)


@shim(np.all)
def np_all(x, axis=None):
    if isinstance(x, (Sym, bool)): return x
    return to_arr(x).all(axis=axis)


@shim(np.prod)
def np_prod(x, axis=None): return to_arr(x).prod(axis=axis)


@shim(np.cumprod)
def np_cumprod(x, axis=None): return to_arr(x).cumprod(axis=axis)


@shim(np.cumsum)
def np_cumsum(x, axis=None): return to_arr(x).cumsum(axis=axis)


@shim(np.average)
def np_average(x, axis=None, weights=None):
    x = to_arr(x)
    if weights is None:
        return x.mean(axis=axis)
    w = to_arr(weights)
    if w.ndim != x.ndim:
        if axis is None:
            raise SymRaise(TypeError("Axis must be specified when shapes of a and weights differ."))
        if w.ndim != 1:
            raise SymRaise(TypeError("1D weights expected when shapes of a and weights differ."))
        if x.ndim == 2 and axis in (1, -1):
            pass
        elif x.ndim == 2 and axis == 0:
            w = w[:, None]
        else:
            raise Unsupported("np.average weights")
    den = w.sum(axis=axis) if w.ndim == x.ndim else w.sum()
    return (x * w).sum(axis=axis) / den


def _ew(name, f, native_f, kind="float"):
    def g(x, **kw):
        if kw.get("out") is not None:
            raise Unsupported("out=")
        if isinstance(x, Sym):
            return wrap(f(nterm(x)), kind if kind != "same" else x.kind)
        if not deep_symbolic(x) and not isinstance(x, np.ndarray) and not isinstance(x, (list, tuple)):
            return native_f(x)
        a = to_arr(x)
        return V.ewise1(lambda t: f(tm.as_num(t)), a, kind if kind != "same" else a.kind)
    return g


for _n, _f in [("exp", np.exp), ("log", np.log), ("sqrt", np.sqrt), ("sin", np.sin), ("cos", np.cos)]:
    SHIM[id(_f)] = _ew(_n, (lambda nme: lambda t: tm.app(nme, t))(_n), _f)
import scipy.special
SHIM[id(scipy.special.logit)] = _ew("logit", lambda t: tm.app("logit", t), scipy.special.logit)
SHIM[id(np.abs)] = _ew("abs", tm.abs_, np.abs, "same")
SHIM[id(np.negative)] = _ew("negative", lambda t: tm.mul(tm.num(-1), t), np.negative, "same")
SHIM[id(np.sign)] = _ew("sign", lambda t: tm.ite(tm.lt(ZERO, t), ONE, tm.ite(tm.lt(t, ZERO), tm.num(-1), ZERO)), np.sign, "same")
SHIM[id(np.ceil)] = _ew("ceil", lambda t: tm.app("ceil", t, sort="I"), np.ceil)
SHIM[id(np.floor)] = _ew("floor", lambda t: tm.app("floor", t, sort="I"), np.floor)
SHIM[id(np.square)] = _ew("square", lambda t: tm.mul(t, t), np.square, "same")
SHIM[id(np.round)] = _ew("round", lambda t: tm.app("round", t, sort="I"), np.round)
SHIM[id(np.isnan)] = _ew("isnan", lambda t: FALSE, np.isnan, "bool")
SHIM[id(np.isfinite)] = _ew("isfinite", lambda t: TRUE, np.isfinite, "bool")
SHIM[id(np.logical_not)] = lambda x: ~to_arr(x)
SHIM_KEEP2 = [np.logical_not]


def _ew2(f, native_f, kind, inf=None):
    def g(x, y, **kw):
        if not deep_symbolic((x, y)) and not isinstance(x, np.ndarray) and not isinstance(y, np.ndarray):
            return native_f(x, y)
        if is_inf(x) or is_inf(y):
            if inf is None:
                raise Unsupported("inf operand")
            return inf(x, y)
        if not isinstance(x, (SArr, np.ndarray, list, SList)) and not isinstance(y, (SArr, np.ndarray, list, SList)):
            kd = kind if kind != "arith" else ("float" if "float" in (kind_of(x), kind_of(y)) else "int")
            return wrap(f(nterm(x), nterm(y)), kd)
        return V.ewise2(V.num2(f), to_arr(x), to_arr(y), kind)
    return g


def _inf_min(x, y):
    b, o = (x, y) if is_inf(x) else (y, x)
    if b > 0:
        return o.copy() if isinstance(o, SArr) else o
    raise Unsupported("min with -inf")


def _inf_max(x, y):
    b, o = (x, y) if is_inf(x) else (y, x)
    if b < 0:
        return o.copy() if isinstance(o, SArr) else o
    raise Unsupported("max with inf")


SHIM[id(np.minimum)] = _ew2(tm.min2, np.minimum, "arith", _inf_min)
SHIM[id(np.maximum)] = _ew2(tm.max2, np.maximum, "arith", _inf_max)
SHIM[id(np.multiply)] = _ew2(tm.mul, np.multiply, "arith")
SHIM[id(np.add)] = _ew2(tm.add, np.add, "arith")
SHIM[id(np.subtract)] = _ew2(tm.sub, np.subtract, "arith")
SHIM[id(np.true_divide)] = _ew2(tm.div, np.divide, "float")
SHIM[id(np.power)] = _ew2(tm.power, np.power, "arith")
SHIM[id(np.logical_and)] = lambda x, y: to_arr(x) & to_arr(y)
SHIM[id(np.logical_or)] = lambda x, y: to_arr(x) | to_arr(y)
SHIM[id(np.equal)] = lambda x, y: to_arr(x) == to_arr(y)
SHIM[id(np.less)] = lambda x, y: to_arr(x) < to_arr(y)
SHIM[id(np.greater)] = lambda x, y: to_arr(x) > to_arr(y)
SHIM[id(np.less_equal)] = lambda x, y: to_arr(x) <= to_arr(y)
SHIM[id(np.greater_equal)] = lambda x, y: to_arr(x) >= to_arr(y)


@shim(np.clip)
def np_clip(x, lo=None, hi=None, a_min=None, a_max=None):
    lo = a_min if lo is None else lo
    hi = a_max if hi is None else hi
    r = x
    if lo is not None and not (is_inf(lo) and lo < 0):
        r = SHIM[id(np.maximum)](r, lo)
    if hi is not None and not (is_inf(hi) and hi > 0):
        r = SHIM[id(np.minimum)](r, hi)
    return r


@shim(np.where)
def np_where(c, *xy):
    c = to_arr(c)
    if len(xy) == 2:
        x, y = to_arr(xy[0]), to_arr(xy[1])
        kd = "float" if "float" in (x.kind, y.kind) else "int" if "int" in (x.kind, y.kind) else "bool"
        return V.ewise3(lambda a, b, d: tm.ite(tm.as_bool(a), b, d), c, x, y, kd)
    k = V.const_np(c)
    if k is not None:
        return tuple(V.from_np(x) for x in np.where(k))
    if c.ndim == 1:
        f = c.snapshot()
        ax = Axis(c.axes[0].n, lambda k: tm.as_bool(f(k)))
        r = SArr((ax,), lambda k: k, "int")
        return (r,)
    raise Unsupported("np.where(cond) on n-d array")


@shim(np.delete)
def np_delete(a, obj, axis=None):
    a = to_arr(a)
    o = V.const_np(to_arr(obj))
    if axis is not None or a.ndim != 1 or not a.axes[0].concrete() or o is None:
        raise Unsupported("np.delete")
    keep = np.delete(np.arange(int(a.axes[0].n.args[0])), o)
    return a[V.from_np(keep)]


@shim(np.eye, np.identity)
def np_eye(n, m=None, dtype=float, **kw):
    d = _dim(n)
    e = d if m is None else _dim(m)
    return SArr((d, e), lambda i, j: tm.iv(tm.eq(i, j)), V.kind_from_dtype(dtype) or "float")


@shim(np.dot)
def np_dot(a, b):
    if not isinstance(a, (SArr, np.ndarray, list)) or not isinstance(b, (SArr, np.ndarray, list)):
        return a * b
    return V.matmul(to_arr(a), to_arr(b))


@shim(np.matmul)
def np_matmul(a, b): return V.matmul(to_arr(a), to_arr(b))


@shim(np.outer)
def np_outer(a, b):
    a, b = to_arr(a), to_arr(b)
    return a[:, None] * b[None, :]


@shim(np.expand_dims)
def np_expand(a, axis):
    a = to_arr(a)
    axs = list(axis) if isinstance(axis, (list, tuple)) else [axis]
    nd = a.ndim + len(axs)
    axs = sorted(x % nd for x in axs)
    key = [slice(None)] * a.ndim
    for x in axs:
        key.insert(x, None)
    return a[tuple(key)]


@shim(np.pad)
def np_pad(a, pad_width, mode="constant", constant_values=0):
    a = to_arr(a)
    w = pad_width
    if mode != "constant" or a.ndim != 1 or isinstance(constant_values, (list, tuple)):
        raise Unsupported("np.pad")
    if isinstance(w, (list, tuple)) and len(w) == 1:
        w = w[0]
    if not isinstance(w, (list, tuple)):
        w = (w, w)
    b, e = nterm(w[0]), nterm(w[1])
    if decide(tm.or_(tm.lt(b, ZERO), tm.lt(e, ZERO))):
        raise SymRaise(ValueError("index can't contain negative values"))
    if a.axes[0].guard is not None:
        raise Unsupported("np.pad of a masked axis")
    f, n, c = a.snapshot(), a.axes[0].n, nterm(constant_values)
    return SArr((Axis(tm.add(tm.add(b, n), e)),), lambda i: tm.ite(tm.and_(tm.le(b, i), tm.lt(i, tm.add(b, n))), tm.as_num(f(tm.sub(i, b))), c), a.kind)


@shim(np.squeeze)
def np_squeeze(a, axis=None): return to_arr(a).squeeze(axis)


@shim(np.transpose)
def np_transpose(a, axes=None): return to_arr(a).transpose(*(axes or ()))


@shim(np.reshape)
def np_reshape(a, shape): return reshape(to_arr(a), dims_raw(shape))


def dims_raw(s):
    return tuple(s) if isinstance(s, (tuple, list)) else (s,)


def reshape(a, shape):
    """supports merging/splitting of adjacent axes in row-major order"""
    shape = list(shape)
    ts = [nterm(s) if not (isinstance(s, int) and s == -1) else None for s in shape]
    if all(ax.guard is None for ax in a.axes):
        src = [ax.n for ax in a.axes]
    elif a.ndim == 1 or (len(ts) >= 1 and len(ts) <= 3):
        # masked axis: allow only adding unit axes
        lens = [nm.norm(ax.length()) for ax in a.axes]
        out = []
        j = 0
        maps = []
        for t in ts:
            if t is not None and tm.is_num(t, 1) and not (j < a.ndim and a.axes[j].is_one()):
                out.append(Axis(ONE))
                continue
            if j < a.ndim and (t is None or nm.norm(t) is lens[j]):
                out.append(a.axes[j])
                maps.append(len(out) - 1)
                j += 1
            else:
                raise Unsupported("reshape of masked array")
        if j != a.ndim:
            raise Unsupported("reshape of masked array")
        f = a.snapshot()
        return SArr(out, lambda *i: f(*[i[m] for m in maps]), a.kind)
    else:
        raise Unsupported("reshape of masked array")
    total = nm.nf(tm.mul(*src) if src else ONE)
    if any(t is None for t in ts):
        known = nm.nf(tm.mul(*[t for t in ts if t is not None]) if any(t is not None for t in ts) else ONE)
        q = nm.pmul(total, nm.pinv(known))
        qt = nm.to_term(q)
        if not nm.is_int_poly(q):
            if nm.is_int_poly(known) and nm.is_int_poly(total) and set(known) == {()} and set(total) == {()}:
                raise SymRaise(ValueError("cannot reshape array"))
            raise Unsupported("reshape(-1) with non-dividing shape")
        ts = [qt if t is None else t for t in ts]
    dst = [nm.norm(t) for t in ts]
    tot2 = nm.nf(tm.mul(*dst) if dst else ONE)
    if tot2 != total:
        if not decide(tm.eq(nm.to_term(total), nm.to_term(tot2))):
            raise SymRaise(ValueError("cannot reshape array"))
    # group matching: walk both shapes accumulating products
    groups = []
    i = j = 0
    while i < len(src) or j < len(dst):
        gi, gj = [], []
        pi, pj = nm.P1, nm.P1
        while True:
            if pi == pj and (gi or gj) and (gi and gj):
                break
            if pi == pj and not gi and not gj:
                if i < len(src) and j < len(dst):
                    gi.append(i); pi = nm.pmul(pi, nm.nf(src[i])); i += 1
                    gj.append(j); pj = nm.pmul(pj, nm.nf(dst[j])); j += 1
                    continue
                if i < len(src):
                    gi.append(i); pi = nm.pmul(pi, nm.nf(src[i])); i += 1
                    if pi == nm.P1: break
                    continue
                gj.append(j); pj = nm.pmul(pj, nm.nf(dst[j])); j += 1
                if pj == nm.P1: break
                continue
            # extend the one that divides the other
            if divides(pj, pi) and j < len(dst):
                gj.append(j); pj = nm.pmul(pj, nm.nf(dst[j])); j += 1
            elif i < len(src) and divides(pi, pj):
                gi.append(i); pi = nm.pmul(pi, nm.nf(src[i])); i += 1
            elif j < len(dst):
                gj.append(j); pj = nm.pmul(pj, nm.nf(dst[j])); j += 1
            elif i < len(src):
                gi.append(i); pi = nm.pmul(pi, nm.nf(src[i])); i += 1
            else:
                raise Unsupported("reshape pattern")
        groups.append((gi, gj))
    f = a.snapshot()
    saxes = a.axes
    oaxes = [Axis(t) for t in dst]
    for gi, gj in groups:
        if len(gi) == 1 and len(gj) == 1:
            oaxes[gj[0]] = saxes[gi[0]]
        gi2 = [x for x in gi if not tm.is_num(src[x], 1)]
        gj2 = [x for x in gj if not tm.is_num(dst[x], 1)]
        if len(gi2) == 1 and len(gj2) == 1:
            oaxes[gj2[0]] = saxes[gi2[0]]

    def fn(*idx):
        out = [ZERO] * len(src)
        for gi, gj in groups:
            gi2 = [x for x in gi if not tm.is_num(src[x], 1)]
            gj2 = [x for x in gj if not tm.is_num(dst[x], 1)]
            if len(gi2) == len(gj2) and all(src[x] is dst[y] for x, y in zip(gi2, gj2)):
                for x, y in zip(gi2, gj2):
                    out[x] = idx[y]
                continue
            flat = ZERO
            for y in gj2:
                flat = tm.add(tm.mul(flat, dst[y]), idx[y])
            # split flat into source indices
            rem = flat
            for p, x in enumerate(gi2):
                st = tm.mul(*[src[z] for z in gi2[p + 1:]]) if gi2[p + 1:] else ONE
                if p == len(gi2) - 1:
                    out[x] = rem
                else:
                    q, r = divmod_term(rem, nm.norm(st))
                    out[x] = q
                    rem = r
        return f(*out)
    return SArr(oaxes, fn, a.kind)


def divmod_term(t, n):
    """(t div n, t mod n) with simplification for t = q*n + r, 0<=r<n"""
    p = nm.nf(t)
    np_ = nm.nf(n)
    if len(np_) == 1:
        (m, c), = np_.items()
        q = nm.P0
        r = nm.P0
        for mm, cc in p.items():
            d = dict(mm)
            ok = all(d.get(a, 0) >= e for a, e in m) and (cc / c).denominator == 1
            if ok:
                for a, e in m:
                    d[a] -= e
                    if d[a] == 0:
                        del d[a]
                q = nm.padd(q, {nm.mk_mono_d(d): cc / c})
            else:
                r = nm.padd(r, {mm: cc})
        rt = nm.to_term(r)
        if EngineHook.cur is not None and EngineHook.cur.frames:
            ok = EngineHook.cur.known(tm.and_(tm.le(ZERO, rt), tm.lt(rt, n)))
        else:
            from . import solve
            ok = solve.prove(tm.and_(tm.le(ZERO, rt), tm.lt(rt, n)), solve.Ctx())
        if ok:
            return nm.to_term(q), rt
    return tm.app("idiv", t, n, sort="I"), tm.app("mod", t, n, sort="I")


def divides(p, q):
    """p divides q, p != q (both monomial polys)"""
    if p == q:
        return False
    r = nm.pmul(q, nm.pinv(p))
    return nm.is_int_poly(r)


@shim(np.concatenate)
def np_concat(xs, axis=0):
    it = _iter(xs)
    if isinstance(it, SymIter):
        return concat_sym(it, axis)
    xs = [to_arr(x) for x in it]
    if axis is None:
        xs = [x.flatten() for x in xs]
        axis = 0
    nd = xs[0].ndim
    if any(x.ndim != nd for x in xs):
        raise SymRaise(ValueError("all the input array dimensions must match"))
    if nd == 0:
        raise SymRaise(ValueError("zero-dimensional arrays cannot be concatenated"))
    axis = axis % nd
    for x in xs[1:]:
        for j in range(nd):
            if j != axis and not same_axis(x.axes[j], xs[0].axes[j]):
                if x.axes[j].guard is None and xs[0].axes[j].guard is None:
                    if not decide(tm.eq(x.axes[j].n, xs[0].axes[j].n)):
                        raise SymRaise(ValueError("all the input array dimensions except for the concatenation axis must match exactly"))
                else:
                    raise Unsupported("concatenate masked")
    if len(xs) == 1:
        return xs[0].copy()
    fs = [x.snapshot() for x in xs]
    ns = [x.axes[axis].n for x in xs]
    offs = [ZERO]
    for n in ns:
        offs.append(nm.norm(tm.add(offs[-1], n)))
    kinds = [x.kind for x in xs]
    kind = "float" if "float" in kinds else "int" if "int" in kinds else "bool"

    def fn(*i):
        k = i[axis]
        r = None
        for j in range(len(xs) - 1, -1, -1):
            idx = i[:axis] + (tm.sub(k, offs[j]),) + i[axis + 1:]
            if r is None:
                r = fs[j](*idx)
            else:
                c = tm.lt(k, offs[j + 1])
                a, b = fs[j](*idx), r
                if kind != "bool":
                    a, b = tm.as_num(a), tm.as_num(b)
                r = tm.ite(c, a, b)
        return r
    axes = list(xs[0].axes)
    guard = None
    gs = [x.axes[axis].guard for x in xs]
    if any(g is not None for g in gs):
        def guard(k):
            r = None
            for j in range(len(xs) - 1, -1, -1):
                c = TRUE if gs[j] is None else gs[j](tm.sub(k, offs[j]))
                if r is None:
                    r = c
                else:
                    b = tm.lt(k, offs[j + 1])
                    r = tm.or_(tm.and_(b, c), tm.and_(tm.not_(b), r))
            return r
    axes[axis] = Axis(offs[-1], guard, parts=None if guard is None else [x.axes[axis] for x in xs])
    return SArr(axes, fn, kind)


def concat_sym(it, axis):
    """concatenate n equal-shape blocks: entry r of block k at k*m + r"""
    if it.guard is not None or axis is None:
        raise Unsupported("concatenate of filtered list")
    k0 = tm.fresh("q", "I", (ZERO, it.n))
    e = to_arr(it.elem(k0))
    if e.ndim == 0:
        raise SymRaise(ValueError("zero-dimensional arrays cannot be concatenated"))
    axis = axis % e.ndim
    m = e.axes[axis]
    if m.guard is not None or k0.id in m.n.fv:
        raise Unsupported("concatenate of varying blocks")

    def fn(*i):
        q, r = divmod_term(i[axis], m.n)
        return to_arr(it.elem(q)).at(*(i[:axis] + (r,) + i[axis + 1:]))
    return SArr(e.axes[:axis] + (Axis(tm.mul(it.n, m.n)),) + e.axes[axis + 1:], fn, e.kind)


@shim(np.vstack)
def np_vstack(xs):
    it = _iter(xs)
    if isinstance(it, SymIter):
        k0 = tm.fresh("q", "I", (ZERO, it.n))
        e = to_arr(it.elem(k0))
        if e.ndim == 1:
            return SList(it.n, it.elem, it.guard).to_arr()
        return concat_sym(it, 0)
    xs = [to_arr(x) for x in it]
    xs = [x[None, :] if x.ndim == 1 else x for x in xs]
    return np_concat(xs, 0)


@shim(np.hstack)
def np_hstack(xs):
    xs = [to_arr(x) for x in _iter(xs)]
    return np_concat(xs, 0 if xs[0].ndim == 1 else 1)


@shim(np.stack)
def np_stack(xs, axis=0):
    a = to_arr(xs if not isinstance(xs, tuple) else list(xs))
    if axis == 0:
        return a
    nd = a.ndim
    axis = axis % nd
    p = list(range(1, nd))
    p.insert(axis, 0)
    return a.transpose(*p)


class _C:
    @staticmethod
    def getitem(key):
        if not isinstance(key, tuple):
            key = (key,)
        xs = []
        for x in key:
            a = to_arr(x)
            if a.ndim == 1:
                a = a[:, None]
            elif a.ndim == 0:
                raise Unsupported("np.c_ scalar")
            xs.append(a)
        return np_concat(xs, -1)


class _R:
    @staticmethod
    def getitem(key):
        if not isinstance(key, tuple):
            key = (key,)
        return np_concat([to_arr(x) for x in key], 0)


SHIM[id(np.c_)] = _C
SHIM[id(np.r_)] = _R


@shim(np.append)
def np_append(a, b, axis=None):
    if axis is None:
        a, b = to_arr(a), to_arr(b)
        a = a.flatten() if a.ndim != 1 else a
        b = b.reshape(-1) if b.ndim > 1 else (b[None] if b.ndim == 0 else b)
        return np_concat([a, b], 0)
    return np_concat([a, b], axis)


@shim(np.tile)
def np_tile(a, reps):
    a = to_arr(a)
    reps = reps if isinstance(reps, (tuple, list)) else (reps,)
    reps = list(reps)
    nd = max(a.ndim, len(reps))
    while len(reps) < nd:
        reps.insert(0, 1)
    axes = [Axis(ONE)] * (nd - a.ndim) + list(a.axes)
    off = nd - a.ndim
    f = a.snapshot()
    out = []
    maps = []
    for j in range(nd):
        r = nterm(reps[j])
        ax = axes[j]
        if tm.is_num(r, 1):
            out.append(ax)
            maps.append("id")
        elif ax.is_one():
            out.append(_dim(wrap(r)))
            maps.append("zero")
        else:
            if ax.guard is not None:
                raise Unsupported("tile masked axis")
            out.append(Axis(tm.mul(r, ax.n)))
            maps.append(ax.n)

    def fn(*i):
        src = []
        for j in range(off, nd):
            m = maps[j]
            if m == "id":
                src.append(i[j])
            elif m == "zero":
                src.append(ZERO)
            else:
                src.append(divmod_term(i[j], m)[1])
        return f(*src)
    return SArr(out, fn, a.kind)


@shim(np.repeat)
def np_repeat(a, reps, axis=None):
    a = to_arr(a)
    if isinstance(reps, (SArr, np.ndarray, list)):
        raise Unsupported("repeat with array counts")
    r = nterm(reps)
    if a.ndim == 0:
        t = a.at()
        return SArr((Axis(r),), lambda i: t, a.kind)
    if axis is None:
        a = a.flatten() if a.ndim > 1 else a
        axis = 0
    axis = axis % a.ndim
    f = a.snapshot()
    if a.axes[axis].guard is not None:
        raise Unsupported("repeat masked")
    axes = list(a.axes)
    if axes[axis].is_one():
        axes[axis] = Axis(r)
        return SArr(axes, lambda *i: f(*(i[:axis] + (ZERO,) + i[axis + 1:])), a.kind)
    axes[axis] = Axis(tm.mul(axes[axis].n, r))
    rn = nm.norm(r)
    return SArr(axes, lambda *i: f(*(i[:axis] + (divmod_term(i[axis], rn)[0],) + i[axis + 1:])), a.kind)


@shim(np.roll)
def np_roll(a, shift, axis=None):
    a = to_arr(a)
    if a.ndim != 1 or not isinstance(shift, int):
        raise Unsupported("np.roll")
    f = a.snapshot()
    n = a.axes[0].n
    if a.axes[0].guard is not None:
        raise Unsupported("roll masked axis")
    if shift == 1:
        return SArr(a.axes, lambda i: tm.ite(tm.eq(i, ZERO), tm.as_num(f(tm.sub(n, ONE))), tm.as_num(f(tm.sub(i, ONE)))), a.kind)
    if shift == -1:
        return SArr(a.axes, lambda i: tm.ite(tm.eq(i, tm.sub(n, ONE)), tm.as_num(f(ZERO)), tm.as_num(f(tm.add(i, ONE)))), a.kind)
    raise Unsupported("np.roll shift")


@shim(np.diag)
def np_diag(a):
    a = to_arr(a)
    f = a.snapshot()
    if a.ndim == 1:
        return SArr((a.axes[0], a.axes[0]), lambda i, j: tm.ite(tm.eq(i, j), tm.as_num(f(i)), ZERO), a.kind)
    return SArr((a.axes[0],), lambda i: f(i, i), a.kind)


@shim(np.tril)
def np_tril(a, k=0):
    a = to_arr(a)
    f = a.snapshot()
    kk = nterm(k)
    return SArr(a.axes, lambda i, j: tm.ite(tm.le(j, tm.add(i, kk)), tm.as_num(f(i, j)), ZERO), a.kind)


@shim(np.issubdtype)
def np_issubdtype(a, b):
    return np.issubdtype(a, b)


@shim(np.isscalar)
def np_isscalar(x):
    return isinstance(x, Sym) or np.isscalar(x)


@shim(np.ndim)
def np_ndim(x): return to_arr(x).ndim


@shim(np.shape)
def np_shape(x): return to_arr(x).shape


ALLCLOSE_EXACT = [True]


@shim(np.allclose)
def np_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = to_arr(a), to_arr(b)
    rt, at = tm.lift(float(rtol)), tm.lift(float(atol))
    d = V.ewise2(lambda x, y: tm.le(tm.abs_(tm.sub(tm.as_num(x), tm.as_num(y))), tm.add(at, tm.mul(rt, tm.abs_(tm.as_num(y))))), a, b, "bool")
    return d.all() if isinstance(d, SArr) else d


@shim(np.isclose)
def np_isclose(a, b, rtol=1e-5, atol=1e-8):
    rt, at = tm.lift(float(rtol)), tm.lift(float(atol))
    return V.ewise2(lambda x, y: tm.le(tm.abs_(tm.sub(tm.as_num(x), tm.as_num(y))), tm.add(at, tm.mul(rt, tm.abs_(tm.as_num(y))))), to_arr(a), to_arr(b), "bool")


@shim(np.array_equal)
def np_array_equal(a, b):
    a, b = to_arr(a), to_arr(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.axes, b.axes):
        if not decide(tm.eq(x.length(), y.length())):
            return False
    return (a == b).all()


def perm_sort(a, axis=-1):
    """argsort as an uninterpreted permutation: sortidx(row key, r)"""
    f = a.snapshot()
    nd = a.ndim
    axis = axis % nd
    ax = a.axes[axis]
    if ax.guard is not None:
        raise Unsupported("argsort of masked axis")
    n = ax.n
    if n.op == "num" and n.args[0] <= 4 and nd > 1:
        # short rows: the entry with r smaller entries (equal ones in index order)
        N = int(n.args[0])

        def small(*i):
            x = [tm.as_num(f(*(i[:axis] + (tm.num(k),) + i[axis + 1:]))) for k in range(N)]
            t = ZERO
            for b in range(N):
                rank = ZERO
                for c in range(N):
                    if c != b:
                        rank = tm.add(rank, tm.iv(tm.le(x[c], x[b]) if c < b else tm.lt(x[c], x[b])))
                t = tm.add(t, tm.mul(tm.num(b), tm.iv(tm.eq(rank, i[axis]))))
            return t
        return small

    def fn(*i):
        k = tm.fresh("z", "I", (ZERO, n))
        row = tm.bind_var("lam", n, k, tm.as_num(f(*(i[:axis] + (k,) + i[axis + 1:]))))
        return tm.app("argsort", row, n, i[axis], sort="I")
    return fn


nm_decl_argsort = dict(lo=0, hiT=lambda row, n, r: n)


@shim(np.argsort)
def np_argsort(a, axis=-1, **kw):
    if isinstance(a, list) and not getattr(a, "symtail", None) and len(a) <= 7 and all(isinstance(y, (Sym, int, float, np.number)) for y in a):
        from .interp import sort_order
        return np.array(sort_order(list(a)), dtype=int)
    a = to_arr(a)
    nm.DECL["argsort"] = nm_decl_argsort
    return SArr(a.axes, perm_sort(a, axis), "int")


@shim(np.sort)
def np_sort(a, axis=-1):
    a = to_arr(a)
    nm.DECL["argsort"] = nm_decl_argsort
    fn = perm_sort(a, axis)
    f = a.snapshot()
    ax = axis % a.ndim
    return SArr(a.axes, lambda *i: f(*(i[:ax] + (fn(*i),) + i[ax + 1:])), a.kind)


@shim(np.percentile)
def np_percentile(a, q, axis=None, **kw):
    a = to_arr(a)
    if a.ndim != 1:
        raise Unsupported("percentile n-d")
    f = a.snapshot()
    ax = a.axes[0]
    k = tm.fresh("z", "I", (ZERO, ax.n))
    b = tm.as_num(f(k))
    if ax.guard is not None:
        raise Unsupported("percentile of masked axis")
    lam = tm.bind_var("lam", ax.n, k, b)
    if isinstance(q, (list, tuple)):
        return to_arr([wrap(tm.app("percentile", lam, nterm(x)), "float") for x in q])
    if isinstance(q, SArr):
        raise Unsupported("percentile with several q")
    return wrap(tm.app("percentile", lam, nterm(q)), "float")


@shim(np.quantile)
def np_quantile(a, q, axis=None, **kw):
    if isinstance(q, (list, tuple)):
        return np_percentile(a, [100 * x for x in q])
    return np_percentile(a, 100 * q)


@shim(np.errstate)
def np_errstate(**kw):
    raise Unsupported("errstate")


@shim(np.nan_to_num)
def np_nan(x, **kw):
    raise Unsupported("nan_to_num")


class SUnique:
    """sorted distinct values of a 1-d integer array"""


@shim(np.unique)
def np_unique(ar, return_index=False, return_inverse=False, return_counts=False, **kw):
    a = to_arr(ar)
    c = V.const_np(a) if a.kind in ("int", "bool") else None
    if c is not None:
        return np.unique(c, return_index=return_index, return_inverse=return_inverse, return_counts=return_counts, **kw)
    if a.ndim != 1 or a.axes[0].guard is not None or return_index or kw:
        raise Unsupported("np.unique of symbolic array")
    f, n = a.snapshot(), a.axes[0].n
    if not decide(tm.le(ONE, n)):
        raise Unsupported("np.unique of an empty array")
    k = tm.fresh("z", "I", (ZERO, n))
    lam = tm.bind_var("lam", n, k, tm.as_num(f(k)))
    sort = "R" if a.kind == "float" else "I"
    nl = nm.norm(lam)
    full = [K for l, K in UNIQUE_FULL if nm.norm(l) == nl]
    b_ = tm.inst(nl.args[1], k) if nl.op == "lam" else None
    if b_ is not None and b_.op == "app" and b_.args[0] == "denserank" and b_.args[2] is k:
        full = [tm.app("nunique", b_.args[1], sort="I")]     # dense ranks take every value 0..K-1
    if full:
        # declared: the values are exactly 0..K-1, each occurring
        K = full[0]
        u = SArr((K,), lambda i: i, a.kind)
        inv = lambda i: f(i)
    else:
        u = SArr((tm.app("nunique", lam, sort="I"),), lambda i: tm.app("uniq", lam, i, sort=sort), a.kind)
        inv = None
        # every distinct value is an entry of the array: it inherits the declared range
        b = f(k)
        d = nm.DECL.get(b.args[0]) if b.op == "app" else None
        if isinstance(d, dict):
            x = lambda j: tm.app("uniq", lam, j, sort=sort)
            if d.get("lo") is not None:
                V.EngineHook.cur.assume(tm.Forall(u.axes[0].n, lambda j: tm.le(tm.lift(d["lo"]), x(j))))
            if isinstance(d.get("hiT"), T):
                V.EngineHook.cur.assume(tm.Forall(u.axes[0].n, lambda j: tm.lt(x(j), d["hiT"])))
    out = [u]
    if return_inverse:
        if inv is None:
            inv = dense_rank(lam, n)
        out.append(SArr((n,), inv, "int"))
    if return_counts:
        g = u.snapshot()
        out.append(SArr(u.axes, lambda i: tm.Sum(n, lambda j: tm.iv(tm.eq(tm.as_num(f(j)), g(i)))), "int"))
    return out[0] if len(out) == 1 else tuple(out)


def dense_rank(lam, n):
    """rank of entry i among the distinct values of an array: uniq(rank) is the entry itself"""
    lam = nm.norm(lam)
    sort = tm.inst(lam.args[1], tm.var("z_", "I")).sort
    f = lambda i: tm.app("denserank", lam, i, sort="I")
    if V.EngineHook.cur is not None:
        V.EngineHook.cur.assume(tm.Forall(n, lambda i: tm.eq(tm.app("uniq", lam, f(i), sort=sort), tm.inst(lam.args[1], i))))
    return f


tm._BUILTIN["denserank"] = lambda l, i: sorted(set(l)).index(l[int(i)])


@shim(scipy.stats.rankdata)
def rankdata(a, method="average", **kw):
    a = to_arr(a)
    if method != "dense" or kw or a.ndim != 1 or a.axes[0].guard is not None:
        raise Unsupported("rankdata options")
    f, n = a.snapshot(), a.axes[0].n
    k = tm.fresh("z", "I", (ZERO, n))
    r = dense_rank(tm.bind_var("lam", n, k, tm.as_num(f(k))), n)
    return SArr((n,), lambda i: tm.add(r(i), ONE), "int")


# (array as lambda term, K): arrays declared to take exactly the values 0..K-1
UNIQUE_FULL = []
