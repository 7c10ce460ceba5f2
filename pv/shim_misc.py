"""Assumed contracts: sklearn / scipy / logging / RNG."""
from __future__ import annotations
import copy as _copy
import numpy as np
import sklearn.utils
from . import terms as tm
from .terms import T, ZERO, ONE, TRUE, FALSE
from .values import (Sym, SArr, SList, Axis, Unsupported, SymRaise, EngineHook, wrap, term, nterm, to_arr, decide, kind_of, is_inf)
from . import values as V
from . import norm as nm
from .interp import shim, SHIM, TrackList, deep_symbolic, NATIVE_OK, IFunc
from . import shim_np


def declare_defaults():
    nm.DECL["argsort"] = nm.DECL["argrank"] = shim_np.nm_decl_argsort
    nm.DECL["nunique"] = dict(lo=1)
    for k, d in RNG_DECL.items():
        nm.DECL[k] = d


# ---------------------------------------------------------------- check_scalar
@shim(sklearn.utils.check_scalar)
def check_scalar(x, name, target_type, *, min_val=None, max_val=None, include_boundaries="both"):
    """documented contract of sklearn.utils.check_scalar"""
    from .shim_np import b_isinstance
    if not isinstance(x, Sym) and not deep_symbolic(x):
        return sklearn.utils.check_scalar(x, name, target_type, min_val=min_val, max_val=max_val, include_boundaries=include_boundaries)
    if isinstance(x, (SArr, SList)) or not b_isinstance(x, target_type):
        raise SymRaise(TypeError(f"{name} must be an instance of {target_type}"))
    lo_ok = include_boundaries in ("left", "both")
    hi_ok = include_boundaries in ("right", "both")
    if min_val is not None and (x < min_val if lo_ok else x <= min_val):
        raise SymRaise(ValueError(f"{name} == ..., must be >= {min_val}"))
    if max_val is not None and (x > max_val if hi_ok else x >= max_val):
        raise SymRaise(ValueError(f"{name} == ..., must be <= {max_val}"))
    return x


# ---------------------------------------------------------------------- RNG
RNG_DECL = {
    "rng_unif": dict(lo=0, hi=1, hi_strict=True),
    "rng_choice": dict(lo=0, hiT=lambda seed, c, n, *i: n),
    "rng_perm": dict(lo=0, hiT=lambda seed, c, n, *i: n),
    "rng_int": dict(lo=0, hiT=lambda seed, c, n, *i: n),
    "rng_bern": dict(lo=0, hi=1),
    "rng_beta": dict(lo=0, hi=1),
    "rng_expo": dict(lo=0),
    "rng_dir": dict(lo=0, hi=1),
    "rng_wdraw": dict(lo=0, hiT=lambda seed, c, n, *i: n),
    "rng_wchoice": dict(lo=0, hiT=lambda seed, c, n, *i: n),
}


def _ranks(axes, i):
    """draws are consumed in order: along a mask-selected axis the draw number is the rank"""
    axes = [a if isinstance(a, V.Axis) else V.Axis(a) for a in axes]
    return [k if a.guard is None else shim_np.rank_term(a, k) for a, k in zip(axes, i)]


class SRng:
    """numpy RandomState: the j-th draw is an uninterpreted function of (seed, j, parameters, index)"""
    _symbolic_ = True
    _trackstate_ = True
    _settable_ = True

    def __init__(self, seed):
        self.seed = seed
        self.counter = 0

    def sym_isinstance(self, c):
        return c in (np.random.RandomState, object)

    def materialize(self, rt):
        return np.random.RandomState(int(tm.ev(self.seed, rt.env)))

    def _next(self):
        c = nterm(self.counter)
        self.counter = self.counter + 1
        return c

    def _shape(self, size, *params):
        if size is None:
            axes = ()
            for p in params:
                axes = tuple(V.broadcast_axes(axes, to_arr(p).axes)) if axes else to_arr(p).axes
            return axes
        return shim_np.dims(size)

    def _draw(self, name, size, params=(), sort="R", kind="float", pre=()):
        c = self._next()
        axes = self._shape(size, *params)
        ps = [to_arr(p) for p in params]
        fs = [(p.axes, p.snapshot()) for p in ps]
        seed = self.seed

        def fn(*i):
            vals = [tm.as_num(f(*V.bidx(ax, axes, i))) for ax, f in fs]
            return tm.app(name, seed, c, *pre, *vals, *_ranks(axes, i), sort=sort)
        r = SArr(axes, fn, kind)
        return r if r.ndim else wrap(r.at(), kind)

    def uniform(self, low=0.0, high=1.0, size=None):
        u = self._draw("rng_unif", size if size is not None else None, () if size is not None else ())
        if low == 0.0 and high == 1.0 and not is_symlike(low) and not is_symlike(high):
            return u
        return low + (high - low) * u

    def random_sample(self, size=None):
        return self._draw("rng_unif", size)

    random = random_sample

    def rand(self, *size):
        return self._draw("rng_unif", size if size else None)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            axes = self._shape(None, loc, scale)
            z = self._draw_axes("rng_norm", axes)
        else:
            z = self._draw("rng_norm", size)
        return loc + scale * z

    def _draw_axes(self, name, axes):
        c = self._next()
        seed = self.seed
        r = SArr(axes, lambda *i: tm.app(name, seed, c, *_ranks(axes, i)), "float")
        return r if r.ndim else wrap(r.at(), "float")

    def standard_normal(self, size=None):
        return self._draw("rng_norm", size)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        n = nm.norm(tm.sub(nterm(high), nterm(low)))
        if not decide(tm.lt(ZERO, n)):
            raise SymRaise(ValueError("low >= high"))
        r = self._draw("rng_int", size, (), "I", "int", pre=(n,))
        return low + r

    def binomial(self, n, p, size=None):
        if n != 1:
            raise Unsupported("binomial n != 1")
        pa = to_arr(p)
        bad = V.ewise1(lambda t: tm.or_(tm.lt(tm.as_num(t), ZERO), tm.lt(ONE, tm.as_num(t))), pa, "bool")
        if decide(tm.as_bool(term(bad.any() if bad.ndim else bad))):
            raise SymRaise(ValueError("p < 0, p > 1 or p contains NaNs"))
        return self._draw("rng_bern", size, (p,), "I", "int")

    def beta(self, a, b, size=None):
        return self._draw("rng_beta", size, (a, b))

    def exponential(self, scale=1.0, size=None):
        r = self._draw("rng_expo", size) if size is not None else self._draw_axes("rng_expo", self._shape(None, scale))
        return scale * r

    def gumbel(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self._draw("rng_gumb", size)

    def dirichlet(self, alpha, size=None):
        """a point of the probability simplex (a fixed number of components)"""
        al = to_arr(alpha)
        if al.ndim != 1 or nm.norm(al.axes[0].n).op != "num":
            raise Unsupported("dirichlet of symbolic dimension")
        c, seed, k = self._next(), self.seed, int(nm.norm(al.axes[0].n).args[0])
        ps = [tm.as_num(al.at(tm.num(j))) for j in range(k)]
        axes = shim_np.dims(size) if size is not None else ()
        w = lambda i: [tm.app("rng_dir", seed, c, *ps, *i, tm.num(j)) for j in range(k - 1)]

        def fn(*i):
            v = w(i[:-1])
            v.append(tm.sub(ONE, tm.add(*v)) if len(v) > 1 else tm.sub(ONE, v[0]) if v else ONE)
            r = v[-1]
            for j in range(k - 1):
                r = tm.ite(tm.eq(i[-1], tm.num(j)), v[j], r)
            return r
        if k > 1 and EngineHook.cur is not None:
            ks = [tm.fresh("z", "I", (ZERO, a.n)) for a in axes]
            g = tm.le(tm.add(*w(ks)) if k > 2 else w(ks)[0], ONE)
            for z, a in zip(ks[::-1], axes[::-1]):
                g = tm.bind_var("forall", a.n, z, g)
            EngineHook.cur.assume(g)
        return SArr(tuple(axes) + (V.Axis(tm.num(k)),), fn, "float")

    def multivariate_normal(self, mean, cov, size=None):
        mean, cov = to_arr(mean), to_arr(cov)
        c = self._next()
        seed = self.seed
        d = mean.axes[0]
        k1 = tm.fresh("z", "I", (ZERO, d.n)); k2 = tm.fresh("z", "I", (ZERO, d.n))
        ml = tm.bind_var("lam", d.n, k1, tm.as_num(mean.at(k1)))
        cl = tm.bind_var("lam", d.n, k1, tm.bind_var("lam", d.n, k2, tm.as_num(cov.at(k1, k2))))
        axes = (shim_np.dims(size) if size is not None else ()) + (d,)
        return SArr(axes, lambda *i: tm.app("rng_mvn", seed, c, ml, cl, *i), "float")

    def permutation(self, x):
        c = self._next()
        seed = self.seed
        if isinstance(x, (SArr, np.ndarray, list)):
            a = to_arr(x)
            f = a.snapshot()
            n = a.axes[0].n
            return SArr(a.axes, lambda i, *r: f(tm.app("rng_perm", seed, c, n, i, sort="I"), *r), a.kind)
        n = nterm(x)
        return SArr((n,), lambda i: tm.app("rng_perm", seed, c, n, i, sort="I"), "int")

    def choice(self, a, size=None, replace=True, p=None):
        seed = self.seed
        if isinstance(a, (SArr, np.ndarray, list, tuple, SList)):
            arr = to_arr(a)
            n = arr.axes[0].n
            if arr.axes[0].guard is not None:
                raise Unsupported("choice from masked array")
            if arr.ndim != 1:
                raise SymRaise(ValueError("a must be 1-dimensional"))
            f = arr.snapshot()
            kind = arr.kind
        else:
            n = nm.norm(nterm(a))
            f = lambda t: t
            kind = "int"
            arr = None
        if not decide(tm.lt(ZERO, n)):
            raise SymRaise(ValueError("a must be greater than 0 unless no samples are taken"))
        c = self._next()
        axes = shim_np.dims(size) if size is not None else ()
        if p is not None:
            pa = to_arr(p)
            if pa.ndim != 1:
                raise SymRaise(ValueError("'p' must be 1-dimensional"))
            if not decide(tm.eq(pa.axes[0].n, n)):
                raise SymRaise(ValueError("'a' and 'p' must have same size"))
            pf = pa.snapshot()
            tot = tm.Sum(n, lambda k: tm.as_num(pf(k)))
            if decide(tm.Exists(n, lambda k: tm.lt(tm.as_num(pf(k)), ZERO))):
                raise SymRaise(ValueError("probabilities are not non-negative"))
            eps = tm.lift(1.5e-8)
            if not decide(tm.le(tm.abs_(tm.sub(tot, ONE)), eps)):
                raise SymRaise(ValueError("probabilities do not sum to 1"))
            k = tm.fresh("z", "I", (ZERO, n))
            pl = tm.bind_var("lam", n, k, tm.as_num(pf(k)))
            if size is None:
                # a single draw; from a concrete population the path splits on its outcome
                t = tm.app("rng_wchoice", seed, c, n, pl, sort="I")
                if n.op == "num" and n.args[0] <= 6:
                    t = tm.app("rng_wdraw", seed, c, n, *[nm.norm(tm.as_num(pf(tm.num(j)))) for j in range(int(n.args[0]))], sort="I")
                cs = V.const_np(arr, 6) if arr is not None else None
                if cs is not None:
                    for v in range(len(cs) - 1):
                        if decide(tm.eq(t, tm.num(v))):
                            return cs[v]
                    return cs[-1]
                return wrap(f(t), kind)
            if not replace:
                # distinct draws with positive probability
                if not decide(le_size(axes, n)):
                    raise SymRaise(ValueError("Cannot take a larger sample than population when 'replace=False'"))
                g = lambda *i: f(tm.app("rng_wperm", seed, c, n, pl, *i, sort="I"))
            else:
                g = lambda *i: f(tm.app("rng_wchoice", seed, c, n, pl, *i, sort="I"))
        elif replace:
            g = lambda *i: f(tm.app("rng_choice", seed, c, n, *i, sort="I"))
        else:
            if not decide(le_size(axes, n)):
                raise SymRaise(ValueError("Cannot take a larger sample than population when 'replace=False'"))
            g = lambda *i: f(tm.app("rng_perm", seed, c, n, *i, sort="I"))
        r = SArr(axes, g, kind)
        return r if r.ndim else wrap(r.at(), kind)

    def subst_k(self, k, j):
        raise Unsupported("rng in list")


RNG_DECL["rng_wperm"] = dict(lo=0, hiT=lambda seed, c, n, *i: n)


def le_size(axes, n):
    s = ONE
    for a in axes:
        s = tm.mul(s, a.length())
    return tm.le(s, n)


def is_symlike(x):
    return isinstance(x, (Sym, SArr))


_anon = [0]


@shim(sklearn.utils.check_random_state)
def check_random_state(seed):
    if isinstance(seed, SRng):
        return seed
    if seed is None:
        return SRng(tm.var("global_rng_seed", "I"))
    if isinstance(seed, Sym):
        if seed.kind != "int":
            raise SymRaise(ValueError("cannot be used to seed"))
        if decide(tm.lt(seed.t, ZERO)):
            raise SymRaise(ValueError("Seed must be between 0 and 2**32 - 1"))
        return SRng(seed.t)
    if isinstance(seed, (int, np.integer)) and not isinstance(seed, bool):
        return SRng(tm.num(int(seed)))
    if isinstance(seed, np.random.RandomState):
        raise Unsupported("foreign RandomState")
    raise SymRaise(ValueError(f"{seed!r} cannot be used to seed a numpy.random.RandomState instance"))


@shim(np.random.RandomState)
def np_randomstate(seed=None):
    return check_random_state(seed)


import tqdm as _tqdm


@shim(_tqdm.tqdm, _tqdm.auto.tqdm if hasattr(_tqdm, "auto") else _tqdm.tqdm)
def tqdm_(x, *a, **k):
    return x


@shim(_copy.deepcopy)
def deepcopy_(x):
    return deep(x)


def deep(x):
    if isinstance(x, SArr):
        return x.copy()
    if type(x) in (list, TrackList):
        return TrackList(deep(y) for y in x)
    if type(x) is dict:
        return {k: deep(v) for k, v in x.items()}
    if type(x) is tuple:
        return tuple(deep(y) for y in x)
    if isinstance(x, (int, float, str, bool, Sym)) or x is None:
        return x
    if hasattr(x, "sym_clone"):
        return x.sym_clone()
    raise Unsupported(f"deepcopy of {type(x).__name__}")


import warnings as _w
import logging as _l
SHIM[id(_w.warn)] = lambda *a, **k: None
for _n in ("info", "debug", "warning", "error"):
    NATIVE_OK.add(id(getattr(_l, _n)))


import scipy.stats as _st


class STDist:
    """scipy.stats.t(df): quantile as an uninterpreted function of (df, q)"""
    _symbolic_ = True

    def __init__(self, df):
        self.df = df

    def ppf(self, q):
        return wrap(tm.app("t_ppf", nterm(self.df), nterm(q)), "float")


@shim(_st.t)
def stats_t(df, *a, **k):
    if a or k:
        raise Unsupported("stats.t with loc/scale")
    return STDist(df)


import scipy.stats as _sst


@shim(type(_sst.t).ppf)
def rv_ppf(self, q, *args, df=None, **kw):
    if self is not _sst.t or kw or len(args) + (df is not None) != 1:
        raise Unsupported("quantile function")
    return wrap(tm.app("t_ppf", nterm(args[0] if args else df), nterm(q)), "float")


# ------------------------------------------------- truncated normal distribution
def _tn_args(a, b, loc, scale):
    return [to_arr(x) for x in (a, b, loc, scale)]


def _tn(name, xs, pre=(), with_index=False, extra=()):
    xs = list(xs) + [to_arr(e) for e in extra]
    axes = ()
    for x in xs:
        axes = tuple(V.broadcast_axes(axes, x.axes)) if axes else x.axes
    fs = [(x.axes, x.snapshot()) for x in xs]

    def fn(*i):
        vals = [tm.as_num(f(*V.bidx(ax, axes, i))) for ax, f in fs]
        return tm.app(name, *pre, *vals, *(i if with_index else ()))
    r = SArr(axes, fn, "float")
    return r if r.ndim else wrap(r.at(), "float")


@shim(type(_sst.truncnorm).stats)
def rv_stats(self, a, b, loc=0, scale=1, moments="mv"):
    if self is not _sst.truncnorm or moments != "m":
        raise Unsupported("distribution moments")
    return _tn("tn_mean", _tn_args(a, b, loc, scale))


@shim(type(_sst.truncnorm).rvs)
def rv_rvs(self, a=None, b=None, loc=0, scale=1, size=None, random_state=None):
    if self is not _sst.truncnorm and self is not _sst.uniform or self is _sst.uniform and size is None:
        raise Unsupported("random variates")
    if self is _sst.uniform:
        r = random_state if isinstance(random_state, SRng) else check_random_state(random_state)
        loc, scale = _uni(a, b, loc, scale)
        if not decide(tm.le(ZERO, nterm(scale))):
            raise SymRaise(ValueError("Domain error in arguments."))
        return loc + scale * r.uniform(size=size)
    if isinstance(random_state, SRng):
        seed, c = random_state.seed, random_state._next()
    else:
        seed, c = check_random_state(random_state).seed, ZERO
    r = _tn("tn_rvs", _tn_args(a, b, loc, scale), (seed, c), True)
    axes = r.axes if isinstance(r, SArr) else ()
    if size is None:
        # scipy returns a scalar for a single variate
        if axes and decide(tm.and_(*[tm.eq(x.length(), ONE) for x in axes])):
            return wrap(r.at(*[ZERO] * len(axes)), "float")
        return r
    want = shim_np.dims(size)
    want = [x if isinstance(x, Axis) else Axis(x) for x in want]
    if len(want) != len(axes) or not decide(tm.and_(*[tm.eq(x.length(), y.length()) for x, y in zip(axes, want)])):
        raise Unsupported("size of random variates")
    return r


def _uni(a, b, loc, scale):
    if a is not None and b is None:
        return a, scale
    return (loc, scale) if a is None else (a, b)


@shim(type(_sst.uniform).pdf)
def rv_pdf(self, x, a=None, b=None, loc=0, scale=1):
    if self is _sst.uniform:
        loc, scale = _uni(a, b, loc, scale)
        l, s = nterm(loc), nterm(scale)
        if not decide(tm.lt(ZERO, s)):
            raise Unsupported("density of a degenerate distribution")
        return V.ewise1(lambda t: tm.ite(tm.and_(tm.le(l, t), tm.le(t, tm.add(l, s))), tm.div(ONE, s), ZERO), to_arr(x), "float")
    if self is not _sst.truncnorm:
        raise Unsupported("density")
    return _tn("tn_pdf", _tn_args(a, b, loc, scale), extra=(x,))


def _tn_num(what):
    def f(*v):
        return float(getattr(_sst.truncnorm, "mean" if what == "m" else "pdf")(*( (v[4],) + v[:2] if what == "p" else v[:2]), loc=v[2], scale=v[3]))
    return f


tm._BUILTIN["tn_mean"] = _tn_num("m")
tm._BUILTIN["tn_pdf"] = _tn_num("p")
RNG_DECL["tn_pdf"] = dict(lo=0)


# ------------------------------------------------ user-supplied functions
class UFun:
    """a user-supplied function of (context, action_context, random_state) with a result per (round, action)"""
    _symbolic_ = True

    def __init__(self, ident, prob):
        self.ident, self.prob = ident, prob
        nm.DECL["ufun%d" % ident] = dict(lo=0, hi=1) if prob else {}

    def __call__(self, context, action_context, random_state=None):
        from .shim_sk import arr_term
        c, a = to_arr(context).copy(), to_arr(action_context).copy()
        ct, at = arr_term(c), arr_term(a)
        rs = nterm(random_state) if random_state is not None else tm.num(-1)
        return SArr((c.axes[0], a.axes[0]), lambda i, j: tm.app("ufun%d" % self.ident, ct, at, rs, i, j))

    def materialize(self, rt):
        ident, prob = self.ident, self.prob

        def f(context, action_context, random_state=None):
            c, a = np.asarray(context, float), np.asarray(action_context, float)
            s = (ident + 1) * 0.37 + (0.0 if random_state is None else 0.01 * int(random_state))
            x = np.sin(c.sum(1)[:, None] * 1.3 + s * (1 + a @ np.arange(1, a.shape[1] + 1))[None, :] + 0.2 * np.arange(a.shape[0])[None, :])
            return 0.5 + 0.45 * x if prob else 2 * x
        return f


# ------------------------------------------------------------------ scipy.optimize.minimize
# the minimiser is an arbitrary vector; the objective handed over is recorded for the contracts
import scipy.optimize as _so
import types
MINIMIZE = []


@shim(_so.minimize)
def sp_minimize(fun, x0, args=(), method=None, jac=None, **kw):
    x0 = to_arr(x0)
    k = len(MINIMIZE)
    MINIMIZE.append((fun, x0, args if isinstance(args, tuple) else (args,), jac))
    return types.SimpleNamespace(x=SArr(x0.axes, lambda i: tm.app(f"minimiser{k}", i), "float"))


# ------------------------------------------------------------------ scipy.special.softmax
import scipy.special as _ssp


@shim(_ssp.softmax)
def scipy_softmax(x, axis=None):
    """exp(x - max) / sum exp(x - max) along one axis"""
    if axis is None:
        raise Unsupported("softmax over all axes")
    x = to_arr(x).copy()
    m = x.max(axis=axis, keepdims=True)
    e = shim_np.np_exp(x - m) if hasattr(shim_np, "np_exp") else SHIM[id(np.exp)](x - m)
    return e / e.sum(axis=axis, keepdims=True)
