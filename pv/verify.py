"""Contracts, obligations, replay, evidence."""
from __future__ import annotations
import os
import signal
import importlib
import json
import math
import os
import sys
import time
import traceback
import types
import numpy as np
from . import terms as tm
from .terms import T, ZERO, ONE, TRUE, FALSE
from . import norm as nm
from . import solve
from .values import (Sym, SArr, SList, Axis, Unsupported, SymRaise, EngineHook, wrap, term, to_arr, decide, kind_of, is_symbolic)
from . import values as V
from .engine import Engine, PathLimit
from .interp import Interp, TrackList, fn_ast, TOUCHED, deep_symbolic
from . import interp as interp_mod
from . import shim_np
from . import loops
from . import shim_misc
from . import shim_pd
from . import shim_sk


def free_vars(t):
    out, seen = [], set()

    def go(x):
        if not isinstance(x, T) or x.id in seen or not x.fv:
            return
        seen.add(x.id)
        if x.op == "var":
            if x.id in t.fv:
                out.append(x)
            return
        for a in x.args:
            go(a)
    go(t)
    return out


import itertools
ARRN = itertools.count()


class Reject(Exception):
    """sampled input outside the precondition"""


# ------------------------------------------------------------------ declarations
class Decl:
    def __init__(self):
        nm.reset()
        solve.EXTRA_FACTS.clear()
        self.entries = []
        self.hyps = []
        self.conds = []
        self.samplers = []
        nm.DECIDER[0] = lambda g: solve.prove(g, solve.Ctx()) or None
        shim_misc.declare_defaults()
        shim_sk.declare()
        self.setup_cbs = []
        shim_np.UNIQUE_FULL.clear()
        V.OPAQUE_FN[:] = [None, None]

    def opaque_var(self, namer, means=False):
        """variances (and, if asked, means) computed by the code are replaced by symbols determined by their normal form"""
        def f(t):
            ps = [v for v in free_vars(t) if v.args[0] not in nm.DECL]
            ps.sort(key=lambda v: v.id)
            return namer(t, ps)
        V.OPAQUE_FN[0] = f
        V.OPAQUE_FN[1] = f if means else None

    def codes(self, name, n, K, gen=None):
        """an integer array taking exactly the values 0..K-1 (each at least once)"""
        def g(rng, env, sh, style):
            k = int(tm.ev(K, env))
            x = np.concatenate([np.arange(k), rng.randint(0, k, size=max(sh[0] - k, 0))])[:sh[0]]
            rng.shuffle(x)
            return x
        a = self.array(name, (n,), "int", lo=0, hiT=K, gen=gen or g)
        self.hyp(tm.Forall(K, lambda k: tm.Exists(n, lambda i: tm.eq(a.at(i), k))))
        z = tm.fresh("z", "I", (tm.ZERO, n))
        shim_np.UNIQUE_FULL.append((tm.bind_var("lam", n, z, a.at(z)), K))
        return a

    def dim(self, name, lo=1, hi=4, val=None):
        nm.DECL[name] = dict(lo=lo)
        v = tm.var(name, "I")
        self.entries.append(("dim", name, lo, hi))
        return v

    def int(self, name, lo=None, hi=None, hiT=None, gen=None):
        d = {}
        if lo is not None: d["lo"] = lo
        if hi is not None: d["hi"] = hi
        if hiT is not None: d["hiT"] = hiT
        nm.DECL[name] = d
        v = tm.var(name, "I")
        self.entries.append(("int", name, lo, hi, hiT, gen))
        return Sym(v, "int")

    def real(self, name, lo=None, hi=None, lo_strict=False, hi_strict=False, gen=None):
        d = {}
        if lo is not None: d.update(lo=lo, lo_strict=lo_strict)
        if hi is not None: d.update(hi=hi, hi_strict=hi_strict)
        nm.DECL[name] = d
        v = tm.var(name, "R")
        self.entries.append(("real", name, d, gen))
        return Sym(v, "float")

    def bool(self, name):
        v = tm.var(name, "B")
        self.entries.append(("bool", name))
        return Sym(v, "bool")

    def array(self, name, shape, kind="float", lo=None, hi=None, lo_strict=False, hi_strict=False, hiT=None, simplex=None, gen=None):
        d = {}
        if simplex is not None:
            lo = 0 if lo is None else lo
            hi = 1
        if kind == "bool":
            lo = hi = None
        if lo is not None: d.update(lo=lo, lo_strict=lo_strict)
        if hi is not None: d.update(hi=hi, hi_strict=hi_strict)
        if hiT is not None: d["hiT"] = hiT if isinstance(hiT, T) or callable(hiT) else tm.lift(hiT)
        nm.DECL[name] = d
        shape = tuple(tm.lift(s) if not isinstance(s, T) else s for s in shape)
        if simplex is not None:
            nm.SIMPLEX[name] = (simplex, shape[simplex])
        sort = {"float": "R", "int": "I", "bool": "B"}[kind]
        a = SArr(shape, lambda *i: tm.app(name, *i, sort=sort), kind)
        a.is_input = name
        a.orig = a._fn
        self.entries.append(("arr", name, shape, kind, d, simplex, gen))
        return a

    def ufun(self, name, gen, sort="R", **d):
        """uninterpreted function of unspecified arguments; gen(rng)-> python function"""
        nm.DECL[name] = d
        self.entries.append(("fun", name, gen))
        return lambda *a: tm.app(name, *a, sort=sort)

    def hyp(self, t):
        self.hyps.append(tm.as_bool(term(t)))

    def sampled_only(self, t):
        """numerical conditioning of sampled inputs; not a hypothesis of the proof"""
        self.conds.append(tm.as_bool(term(t)))

    # ---- concrete sampling
    def sample(self, rng, style, fixed=None):
        env = tm.Env()
        env.arrays = {}
        fixed = fixed or {}
        big_used = [0]
        for e in self.entries:
            k, name = e[0], e[1]
            if name in fixed and (k == "arr" or declared_ok(env, e, fixed[name])):
                v = fixed[name]
                if k == "arr":
                    base = sample_array(rng, style, env, e)
                    v = v(base) if callable(v) else v
                    if not declared_ok(env, e, v):
                        raise Reject("outside the declared range")
                    set_array(env, name, v)
                else:
                    env.vars[name] = v
                continue
            if k == "dim":
                lo, hi = e[2], e[3]
                env.vars[name] = int(rng.randint(lo, hi + 1))
                if style == "const" and rng.rand() < 0.3:
                    cs = [int(c) + o for c in CONSTS if c == int(c) and abs(c) <= 12000 for o in (-1, 0, 1)]
                    cs = [c for c in cs if c >= lo and c <= (12001 if big_used[0] == 0 else hi)]
                    if cs:
                        v = int(cs[rng.randint(len(cs))])
                        env.vars[name] = v
                        if v > 30:
                            big_used[0] += 1
            elif k == "int":
                lo, hi, hiT, gen = e[2:]
                if gen is not None:
                    env.vars[name] = int(gen(rng, env))
                else:
                    lo = -3 if lo is None else lo
                    h = hi if hi is not None else (int(tm.ev(hiT, env)) - 1 if hiT is not None else lo + 5)
                    if h < lo:
                        raise Reject("empty integer range")
                    env.vars[name] = int(rng.randint(lo, h + 1))
                    if style == "const" and CONSTS and rng.rand() < 0.5:
                        c = CONSTS[rng.randint(len(CONSTS))]
                        c = int(c) + rng.randint(-1, 2)
                        if c >= lo and ((hi is None and hiT is None) or c <= h):
                            env.vars[name] = int(c)
            elif k == "real":
                d, gen = e[2], e[3]
                env.vars[name] = float(gen(rng, env)) if gen is not None else float(draw(rng, style, d, ()))
            elif k == "bool":
                env.vars[name] = bool(rng.randint(2))
            elif k == "arr":
                set_array(env, name, sample_array(rng, style, env, e))
            elif k == "fun":
                env.funs[name] = e[2](rng)
        env.memo = {}
        return env


def declared_ok(env, e, v):
    """a value proposed from outside (a solver model) respects the declaration"""
    name = e[1]
    d = nm.DECL.get(name) or {}
    x = np.asarray(v)
    if e[0] == "dim":
        return v >= e[2]
    if x.dtype == bool or not x.size:
        return True
    tol = 1e-9
    if d.get("lo") is not None and (np.any(x <= d["lo"]) if d.get("lo_strict") else np.any(x < d["lo"])):
        return False
    if d.get("hi") is not None and (np.any(x >= d["hi"]) if d.get("hi_strict") else np.any(x > d["hi"])):
        return False
    h = d.get("hiT")
    if h is not None and not callable(h) and np.any(x >= float(tm.ev(h, env))):
        return False
    if e[0] == "arr" and e[5] is not None and np.any(np.abs(x.sum(axis=e[5]) - 1) > tol):
        return False
    return True


def set_array(env, name, v):
    env.arrays[name] = v

    def f(*idx, v=v):
        try:
            if any(i < 0 for i in idx):
                raise tm.Undefined("negative index")
            x = v[tuple(int(i) for i in idx)]
            return x.item() if hasattr(x, "item") else x
        except IndexError:
            raise tm.Undefined("index out of range")
    env.funs[name] = f


CONSTS = []          # constants harvested from a failed obligation / the source


def draw(rng, style, d, shape):
    lo, hi = d.get("lo"), d.get("hi")
    if style == "const" and CONSTS:
        x = np.asarray(draw(rng, "rand", d, shape), dtype=float)
        c = np.asarray(rng.choice(CONSTS, size=shape if shape else None), dtype=float)
        c = c + np.asarray(rng.choice([0.0, 0.0, 1e-3, -1e-3, 1.0, -1.0], size=shape if shape else None))
        ok = np.ones_like(c, dtype=bool)
        if lo is not None: ok &= (c > lo) if d.get("lo_strict") else (c >= lo)
        if hi is not None: ok &= (c < hi) if d.get("hi_strict") else (c <= hi)
        ok &= np.asarray(rng.rand(*shape) < rng.choice([0.2, 0.6, 1.0]))
        return np.where(ok, c, x)
    if lo is not None and hi is not None:
        x = lo + (hi - lo) * rng.rand(*shape)
        if style in ("edge", "ties"):
            cand = [lo + (hi - lo) * f for f in ((0.25, 0.5, 1.0) if d.get("lo_strict") else (0.0, 0.5, 1.0))]
            if d.get("hi_strict"):
                cand = cand[:-1] + [lo + (hi - lo) * 0.75]
            x = np.asarray(rng.choice(cand, size=shape if shape else None))
        else:
            x = np.clip(x, lo + 1e-3 * (hi - lo) if d.get("lo_strict") else lo, hi - 1e-3 * (hi - lo) if d.get("hi_strict") else hi)
        return x
    if lo is not None:
        x = lo + rng.exponential(1.0, size=shape if shape else None) + (1e-3 if d.get("lo_strict") else 0)
        if style in ("edge", "ties"):
            x = np.asarray(rng.choice([lo + 1.0 if d.get("lo_strict") else lo, lo + 0.5, lo + 1.0, lo + 2.0], size=shape if shape else None))
        return x
    if style in ("edge", "ties"):
        return np.asarray(rng.choice([-1.0, 0.0, 0.0, 1.0, 2.0], size=shape if shape else None))
    if style == "big":
        return rng.normal(0, 50, size=shape if shape else None)
    return rng.normal(size=shape if shape else None)


def sample_array(rng, style, env, e):
    _, name, shape, kind, d, simplex, gen = e
    sh = tuple(int(tm.ev(s, env)) for s in shape)
    if gen is not None:
        return np.asarray(gen(rng, env, sh, style))
    if kind == "bool":
        return rng.rand(*sh) < 0.5
    if kind == "int":
        lo = d.get("lo", -3)
        if d.get("hiT") is not None and not callable(d["hiT"]):
            hi = int(tm.ev(d["hiT"], env)) - 1
        else:
            hi = d.get("hi", (lo or 0) + 4)
        if hi < lo:
            raise Reject("empty range")
        return rng.randint(lo, hi + 1, size=sh)
    if simplex is not None:
        g = rng.gamma(0.7, size=sh) + 1e-3
        if style in ("edge", "ties"):
            g = rng.choice([0.0, 1.0, 1.0, 2.0] if not d.get("lo_strict") else [0.5, 1.0, 2.0], size=sh)
            tot = g.sum(axis=simplex, keepdims=True)
            g = np.where(tot == 0, 1.0, g)
        return g / g.sum(axis=simplex, keepdims=True)
    return np.asarray(draw(rng, style, d, sh), dtype=float)


# ------------------------------------------------------------------- runtimes
class Outcome:
    def __init__(self, kind, value):
        self.kind, self.value = kind, value      # 'ret' / 'raise'

    @property
    def returned(self):
        return self.kind == "ret"

    def raised(self, *types_):
        return self.kind == "raise" and isinstance(self.value, types_)

    def __repr__(self):
        return f"Outcome({self.kind}, {self.value!r})"


class SymRT:
    """symbolic runtime: calls are interpreted from the repository source"""
    concrete = False

    def __init__(self, interp, eng):
        self.interp, self.eng = interp, eng
        self.obs = []
        self.returned = False

    def call(self, f, *a, **kw):
        return self.interp.call(f, a, kw)

    def new(self, cls, *a, **kw):
        return self.interp.instantiate(cls, a, kw)

    def body(self, f, *a, **kw):
        """call f by body even if it has a contract"""
        fn = f.__func__ if isinstance(f, types.MethodType) else f
        if isinstance(f, types.MethodType):
            a = (f.__self__,) + a
        if fn_ast(fn) is None:
            return self.interp.call(f, a, kw)
        return self.interp.run_function(fn, a, kw)

    def raw(self, cls, **attrs):
        o = object.__new__(cls)
        for k, v in attrs.items():
            object.__setattr__(o, k, v)
        return o

    def set(self, o, **attrs):
        """put an object into an arbitrary state"""
        for k, v in attrs.items():
            object.__setattr__(o, k, v.copy() if isinstance(v, SArr) else v)

    def get(self, o, name):
        return self.interp.getattr(o, name)

    def arr(self, x):
        return to_arr(x)

    def each(self, n):
        """an arbitrary index below n"""
        k = tm.fresh("i", "I", (ZERO, term(n)))
        self.eng.assume(tm.le(ZERO, k))
        self.eng.assume(tm.lt(k, term(n)))
        return [k]

    def outcome(self, thunk):
        try:
            return Outcome("ret", thunk())
        except SymRaise as e:
            return Outcome("raise", e.exc)

    def skip(self, why):
        """the contract does not apply to this tree (a private representation it is written against is gone)"""
        raise Unsupported(why)

    def assume(self, t):
        t = tm.as_bool(term(t))
        if solve.prove(tm.not_(t), self.eng.ctx):
            from .engine import Infeasible
            raise Infeasible()
        self.eng.assume(t)

    def decide(self, t):
        return decide(tm.as_bool(term(t)))

    def check(self, name, goal):
        if isinstance(goal, (bool, np.bool_)):
            goal = TRUE if goal else FALSE
        goal = tm.as_bool(term(goal)) if not isinstance(goal, T) else tm.as_bool(goal)
        self.obs.append((name, goal, self.eng.ctx.copy()))

    def lemma(self, name, goal):
        """an intermediate obligation, usable afterwards"""
        self.check(name, goal)
        self.eng.assume(tm.as_bool(term(goal) if not isinstance(goal, T) else goal))

    def check_eq(self, name, got, want):
        check_eq(self, name, got, want)

    def val(self, x):
        return x

    # reference computations shared by both runtimes
    def rng(self, seed):
        return shim_misc.SRng(term(seed))

    def replicate(self, seed, B, thunk):
        """B successive draws thunk(rng) -> array with leading axis B"""
        b0 = tm.fresh("b", "I", (ZERO, term(B)))
        r = shim_misc.SRng(term(seed))
        r.counter = Sym(b0, "int")
        x = to_arr(thunk(r))
        f = x.snapshot()
        return SArr((Axis(term(B)),) + tuple(x.axes), lambda b, *i: tm.subst(f(*i), {b0: b}), x.kind)

    def np(self, f, *a, **kw):
        return self.interp.call(f, a, kw)

    def fmt(self, f, *a):
        return interp_mod.sym_str(f(*a)) if is_symbolic(f(*a)) else str(f(*a))


class ConcRng:
    def __init__(self, rt, seed):
        self.rt, self.r = rt, np.random.RandomState(int(seed))

    def __getattr__(self, name):
        m = getattr(self.r, name)

        def f(*a, **kw):
            return m(*[self.rt.mat(x) for x in a], **{k: self.rt.mat(v) for k, v in kw.items()})
        return f


class ConcEngine:
    def __init__(self, env):
        self.env = env
        self.frames = []

    def branch(self, t):
        return bool(eval_bool(t, self.env))

    def known(self, t):
        return bool(eval_bool(t, self.env))

    def assume(self, t):
        if not eval_bool(t, self.env):
            raise Reject("assumption")


TOL = 1e-7


def close(x, y, tol=TOL):
    try:
        x, y = float(x), float(y)
    except TypeError:
        return x == y
    if math.isnan(x) or math.isnan(y):
        return False
    if math.isinf(x) or math.isinf(y):
        return x == y
    return abs(x - y) <= tol * max(1.0, abs(x), abs(y))


def eval_bool(t, env):
    """truth with tolerance on real (in)equalities used as goals"""
    op, a = t.op, t.args
    if op == "and":
        return all(eval_bool(x, env) for x in a)
    if op == "eq" and not (a[0].sort == "I" and a[1].sort == "I"):
        return close(tm.ev(a[0], env), tm.ev(a[1], env))
    if op == "le" and not (a[0].sort == "I" and a[1].sort == "I"):
        x, y = tm.ev(a[0], env), tm.ev(a[1], env)
        return x <= y + TOL * max(1.0, abs(x), abs(y))
    if op == "or":
        return any(eval_bool(x, env) for x in a)
    if op == "forall":
        n = int(tm.ev(a[0], env))
        return all(eval_bool(tm.inst(a[1], tm.num(k)), env) for k in range(n))
    if op == "exists":
        n = int(tm.ev(a[0], env))
        return any(eval_bool(tm.inst(a[1], tm.num(k)), env) for k in range(n))
    return bool(tm.ev(t, env))


class ConcRT:
    """concrete runtime: the real functions run under CPython/numpy"""
    concrete = True

    def __init__(self, env):
        self.env = env
        self.fails = []
        self.n_checks = 0
        self.log = []
        self.eng = ConcEngine(env)
        self.memo = {}

    def mat(self, x):
        if isinstance(x, Sym):
            v = tm.ev(x.t, self.env)
            return v
        if isinstance(x, SArr):
            if id(x) in self.memo:
                return self.memo[id(x)][1]
            r = self.mat_arr(x)
            self.memo[id(x)] = (x, r)
            return r
        if isinstance(x, T):
            return tm.ev(x, self.env)
        if isinstance(x, SList):
            if x.axis.guard is not None:
                raise Reject("filtered list")
            return [self.mat(x.fn(tm.num(j))) for j in range(int(tm.ev(x.n, self.env)))]
        if type(x) in (list, TrackList):
            return [self.mat(y) for y in x]
        if type(x) is tuple:
            return tuple(self.mat(y) for y in x)
        if type(x) is dict:
            return {k: self.mat(v) for k, v in x.items()}
        if hasattr(x, "materialize"):
            return x.materialize(self)
        return x

    def mat_arr(self, x):
        sh = tuple(int(tm.ev(a.n, self.env)) for a in x.axes)
        if any(a.guard is not None for a in x.axes):
            raise Reject("masked input")
        out = np.empty(sh, dtype={"float": float, "int": int, "bool": bool}[x.kind])
        f = x.snapshot()
        for idx in np.ndindex(*sh):
            out[idx] = tm.ev(f(*[tm.num(i) for i in idx]), self.env)
        return out

    def call(self, f, *a, **kw):
        if isinstance(f, T):
            raise TypeError
        if hasattr(f, "materialize"):
            f = f.materialize(self)
        return conc_wrap(f(*[self.mat(x) for x in a], **{k: self.mat(v) for k, v in kw.items()}))

    body = call

    def new(self, cls, *a, **kw):
        return cls(*[self.mat(x) for x in a], **{k: self.mat(v) for k, v in kw.items()})

    def raw(self, cls, **attrs):
        o = object.__new__(cls)
        for k, v in attrs.items():
            object.__setattr__(o, k, self.mat(v))
        return o

    def set(self, o, **attrs):
        for k, v in attrs.items():
            v = self.mat(v)
            object.__setattr__(o, k, np.array(v) if isinstance(v, np.ndarray) else v)

    def get(self, o, name):
        return conc_wrap(getattr(o, name))

    def arr(self, x):
        """an array returned by the real code, as a table the specification can read"""
        if isinstance(x, SArr):
            return x
        x = np.asarray(x)
        if x.dtype == object or not x.ndim:
            return to_arr(x if x.dtype != object else x.tolist())
        name = f"arr!{next(ARRN)}"
        isint = x.dtype.kind in "iub"

        def f(*i):
            if any(not 0 <= k < s for k, s in zip(i, x.shape)):
                raise tm.Undefined("index out of range")
            v = x[tuple(int(k) for k in i)]
            if isint:
                return int(v)
            if not np.isfinite(v):
                raise tm.Undefined("not finite")
            return float(v)
        self.env.funs[name] = f
        return SArr(tuple(tm.num(s) for s in x.shape), lambda *i: tm.app(name, *i, sort="I" if isint else "R"), {"i": "int", "u": "int", "b": "bool", "f": "float"}[x.dtype.kind])

    def each(self, n):
        return [tm.num(k) for k in range(int(tm.ev(term(n), self.env)))]

    def outcome(self, thunk):
        try:
            return Outcome("ret", thunk())
        except (Reject, tm.Undefined, Unsupported, SymRaise):
            raise
        except Exception as e:
            return Outcome("raise", e)

    def skip(self, why):
        raise Reject(why)

    def assume(self, t):
        if not eval_bool(tm.as_bool(term(t)), self.env):
            raise Reject("assume")

    def decide(self, t):
        return bool(eval_bool(tm.as_bool(term(t)), self.env))

    def check(self, name, goal):
        self.n_checks += 1
        if isinstance(goal, (bool, np.bool_)):
            ok = bool(goal)
        else:
            try:
                ok = eval_bool(tm.as_bool(term(goal) if not isinstance(goal, T) else goal), self.env)
            except tm.Undefined as e:
                self.log.append(f"{name}: undefined ({e})")
                self.n_checks -= 1
                return
        if not ok:
            self.fails.append((name, "goal is false"))

    def lemma(self, name, goal):
        self.check(name, goal)

    def check_eq(self, name, got, want):
        check_eq(self, name, got, want)

    def val(self, x):
        return x

    def rng(self, seed):
        return ConcRng(self, self.mat(seed))

    def replicate(self, seed, B, thunk):
        r = self.rng(seed)
        return to_arr(np.stack([np.asarray(thunk(r)) for _ in range(int(self.mat(B)))]))

    def np(self, f, *a, **kw):
        x = f(*[self.mat(y) for y in a], **{k: self.mat(v) for k, v in kw.items()})
        return self.arr(x) if isinstance(x, np.ndarray) and x.ndim else x

    def fmt(self, f, *a):
        return str(f(*[self.mat(x) for x in a]))


class NonFinite:
    """a nan/inf scalar returned by the real code"""

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"NonFinite({self.v})"

    def __eq__(self, o):
        return isinstance(o, NonFinite) and repr(o.v) == repr(self.v)

    __hash__ = None


class ConcArr:
    """real numpy array returned by the real code"""

    def __init__(self, a):
        self.a = a


def conc_wrap(x):
    return x


def axes_goal(a, b):
    return [tm.eq(x.length(), y.length()) for x, y in zip(a.axes, b.axes)]


def check_eq(rt, name, got, want, tol=TOL):
    """got: value produced by the code; want: spec (T / Sym / number / SArr / str / None / dict / list)"""
    if isinstance(want, dict):
        if not isinstance(got, dict):
            rt.check(name + ": is a dict", False)
            return
        rt.check(name + ": keys", list_keys(got) == list_keys(want))
        for k in want:
            if k in got:
                check_eq(rt, f"{name}[{k!r}]", got[k], want[k], tol)
        return
    if isinstance(want, (list, tuple)) and not isinstance(want, TrackList):
        if is_symbolic(got) or not isinstance(got, (list, tuple)):
            got_a = got
            check_eq(rt, name, got, to_arr(list(want)), tol)
            return
        rt.check(name + ": length", len(got) == len(want))
        for j, (x, y) in enumerate(zip(got, want)):
            check_eq(rt, f"{name}[{j}]", x, y, tol)
        return
    if want is None or isinstance(want, str):
        rt.check(name, (got is want) if want is None else (isinstance(got, str) and got == want))
        return
    if rt.concrete:
        if isinstance(want, np.ndarray):
            want = rt.arr(want)
        elif isinstance(want, (np.floating, np.integer, np.bool_)):
            want = want.item()
        rt.n_checks += 1
        try:
            if isinstance(want, SArr):
                g = np.asarray(got)
                if g.dtype == object:
                    rt.fails.append((name, f"expected an array, got {type(got).__name__}"))
                    return
                sh = tuple(int(tm.ev(a.length(), rt.env)) for a in want.axes)
                if g.shape != sh:
                    rt.fails.append((name, f"shape {g.shape}, specification says {sh}"))
                    return
                bases = [[k for k in range(int(tm.ev(a.n, rt.env))) if a.guard is None or tm.ev(a.guard(tm.num(k)), rt.env)] for a in want.axes]
                f = want.snapshot()
                for idx in np.ndindex(*sh):
                    try:
                        w = tm.ev(f(*[tm.num(bases[j][i]) for j, i in enumerate(idx)]), rt.env)
                    except tm.Undefined as e:
                        rt.log.append(f"{name}: undefined ({e})")
                        continue
                    if not close(g[idx], w, tol):
                        rt.fails.append((name, f"element {idx}: code gives {g[idx]!r}, specification {w!r}"))
                        return
                return
            w = tm.ev(term(want), rt.env)
        except tm.Undefined as e:
            rt.n_checks -= 1
            rt.log.append(f"{name}: undefined ({e})")
            return
        try:
            ok = close(got if not (isinstance(got, np.ndarray) and got.ndim == 0) else got[()], w, tol)
        except Exception:
            ok = False
        if not ok:
            rt.fails.append((name, f"code gives {got!r}, specification {w!r}"))
        return
    # symbolic
    if isinstance(want, SArr):
        try:
            g = got if isinstance(got, SArr) else to_arr(got)
        except Unsupported:
            rt.check(name + ": is an array", False)
            return
        rt.check(name + ": ndim", g.ndim == want.ndim)
        if g.ndim != want.ndim:
            return
        for j, (x, y) in enumerate(zip(g.axes, want.axes)):
            if V.same_axis(x, y):
                continue
            rt.check(f"{name}: shape[{j}]", tm.eq(x.length(), y.length()))
        used = set()
        ks = []
        for a in want.axes:
            k = tm.fresh("e", "I", (ZERO, a.n))
            ks.append(k)
        goal = spec_eq(g.at(*ks), want.at(*ks))
        for k, a in reversed(list(zip(ks, want.axes))):
            if a.guard is not None:
                goal = tm.implies(a.guard(k), goal)
        rt.obs.append((name, goal, _with_ranges(rt.eng.ctx.copy(), ks, want.axes)))
        return
    try:
        g = term(got)
    except Unsupported:
        rt.check(name + ": is a number", False)
        return
    rt.check(name, spec_eq(g, term(want)))


def _with_ranges(ctx, ks, axes):
    for k, a in zip(ks, axes):
        ctx.hyps += [tm.le(ZERO, k), tm.lt(k, a.n)]
    return ctx


def spec_eq(a, b):
    if a.sort == "B" or b.sort == "B":
        return tm.eq(tm.as_num(a), tm.as_num(b))
    return tm.eq(a, b)


def list_keys(d):
    return sorted(map(str, d.keys()))


# ----------------------------------------------------------------------- units
class Unit:
    """one contract: `build(D)` declares inputs and returns the harness body(rt)"""

    def __init__(self, name, build, functions=(), samples=12, contracts=(), max_paths=400, tol=TOL, bounded=None, frame=True, limit=120, needs=()):
        self.needs = needs              # opaque contracts the proof is stated over: tuple of keys (or of alternatives)
        self.name, self.build, self.functions = name, build, functions
        self.samples, self.contracts, self.max_paths = samples, contracts, max_paths
        self.bounded = bounded          # text: a stated bound (never counted as proved)
        self.frame = frame
        self.limit = limit
        self.styles = ("rand", "edge", "ties", "rand", "big")


class Result:
    def __init__(self, unit):
        self.unit = unit
        self.status = None           # proved / failed / unsupported / bounded
        self.obligations = []        # (name, ok, backend)
        self.paths = 0
        self.reason = ""
        self.time = 0.0
        self.failures = []           # failing obligation records
        self.concrete = {"samples": 0, "checks": 0, "rejected": 0, "fail": None}
        self.touched = {}
        self.missing = ()            # opaque contracts the code no longer goes through


def inputs_of(D):
    return [e for e in D.entries if e[0] == "arr"]


def run_symbolic(unit, contracts, verbose=False):
    res = Result(unit)
    t0 = time.time()
    TOUCHED.clear()
    fails = []
    try:
        D = Decl()
        body = unit.build(D)
        arrs = {}
        itp = Interp({k: v for k, v in contracts.items() if k in unit.contracts})
        eng = Engine(D.hyps, unit.max_paths)
        # vacuity: hypotheses must be satisfiable
        if D.hyps and not satisfiable(D):
            res.status = "failed"
            res.reason = "precondition is contradictory"
            res.failures.append(("precondition satisfiable", "", ""))
            return res

        def once():
            rt = SymRT(itp, eng)
            for cb in D.setup_cbs:
                cb(rt)
            body(rt)
            return rt.obs
        paths = eng.explore(once)
        res.paths = len(paths)
        nobs = 0
        for conds, kind, val, ctx in paths:
            if kind == "raise":
                # an exception escaped the harness: only admissible if path infeasible
                if solve.prove(FALSE, ctx):
                    continue
                fails.append((f"no unexpected exception ({type(val).__name__}: {str(val)[:120]})", FALSE, ctx, conds))
                res.obligations.append((f"no unexpected exception [{'; '.join(map(str, conds))[:80]}]", False, ""))
                continue
            for name, goal, c in val:
                nobs += 1
                n0 = solve.STATS["z3"]
                ok = solve.prove(goal, c)
                be = "z3+nf" if solve.STATS["z3"] > n0 else "nf"
                res.obligations.append((name, ok, be))
                if not ok:
                    fails.append((name, goal, c, conds))
        if nobs == 0 and not fails:
            res.status = "failed"
            res.reason = "no obligations generated"
            res.failures.append(("obligations generated", "", ""))
            return res
        res.status = "failed" if fails else "proved"
        res.missing = tuple(k for k in unit.needs if k not in itp.called_contracts)
        for name, goal, c, conds in fails:
            res.failures.append((name, str(goal)[:int(os.environ.get("PV_GOAL", 1500))], "; ".join(map(str, conds))[:1500]))
        res.fail_terms = fails
    except (Unsupported, PathLimit, nm.TooBig) as e:
        res.status = "unsupported"
        res.reason = f"{type(e).__name__}: {e}"
        if verbose:
            traceback.print_exc()
    except SymRaise as e:
        res.status = "failed"
        res.reason = f"uncaught {e.exc!r}"
        res.failures.append(("harness", "", repr(e.exc)))
        res.fail_terms = []
        if verbose:
            traceback.print_exc()
    except (RecursionError, NotImplementedError, KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError) as e:
        # engine limitation while interpreting changed code
        res.status = "unsupported"
        res.reason = f"engine: {type(e).__name__}: {e}"
        if verbose:
            traceback.print_exc()
    finally:
        res.time = time.time() - t0
        res.touched = dict(TOUCHED)
        EngineHook.cur = None
    return res


def satisfiable(D):
    st, _ = solve.z3_check(D.hyps, [], FALSE, 3000)
    return st != "valid"


class SampleTimeout(BaseException):
    pass


def _sample_alarm(*a):
    raise SampleTimeout()


def run_concrete(unit, n, seed, fixed_list=(), time_limit=60):
    """run the real code on sampled inputs against the contract; returns dict"""
    out = {"samples": 0, "checks": 0, "rejected": 0, "fail": None, "errors": 0}
    t0 = time.time()
    signal.signal(signal.SIGALRM, _sample_alarm)
    rng = np.random.RandomState(seed)
    jobs = [(None, f) for f in fixed_list] + [(None, None)] * n
    tries = 0
    for j, (_, fixed) in enumerate(jobs):
        if time.time() - t0 > time_limit:
            break
        style = unit.styles[j % len(unit.styles)]
        if CONSTS and j % 2:
            style = "const"
        D = Decl()
        try:
            signal.setitimer(signal.ITIMER_REAL, 8)
            body = unit.build(D)
            env = None
            for attempt in range(30):
                try:
                    e = D.sample(rng, style, fixed)
                    if all(eval_bool(h, e) for h in D.hyps + D.conds):
                        env = e
                        break
                except (Reject, tm.Undefined):
                    pass
            if env is None:
                out["rejected"] += 1
                continue
            rt = ConcRT(env)
            EngineHook.cur = rt.eng
            with np.errstate(all="ignore"):
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    for cb in D.setup_cbs:
                        cb(rt)
                    body(rt)
        except (Reject, tm.Undefined, SampleTimeout):
            out["rejected"] += 1
            continue
        except (Unsupported, SymRaise) as ex:
            out["errors"] += 1
            out["last_error"] = repr(ex)
            continue
        except Exception as ex:
            # the real code raised where the contract promises a result
            tb = traceback.extract_tb(ex.__traceback__)
            in_repo = any(os.path.abspath(f.filename).startswith(interp_mod.SRC_ROOT) for f in tb)
            if in_repo:
                rt.fails.append(("no unexpected exception", f"{type(ex).__name__}: {ex}"))
            else:
                out["errors"] += 1
                out["last_error"] = "".join(traceback.format_exception(ex))[-1500:]
                continue
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            EngineHook.cur = None
        out["samples"] += 1
        out["checks"] += rt.n_checks
        if rt.fails:
            out["fail"] = {"obligation": rt.fails[0][0], "detail": rt.fails[0][1], "all": [f"{a}: {b}" for a, b in rt.fails][:10],
                           "inputs": {"vars": {k: v for k, v in env.vars.items()},
                                      "arrays": {k: np.asarray(v).tolist() for k, v in env.arrays.items()}},
                           "style": style, "index": j}
            return out
    return out
