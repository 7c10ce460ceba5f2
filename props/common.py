"""Shared declarations for the contracts."""
from __future__ import annotations
import numpy as np
from pv import terms as tm
from pv import norm as nm
from pv.terms import (T, ZERO, ONE, TRUE, FALSE, Sum, Prod, Max, Min, ArgMax, ArgMin, Forall, Exists, ite, iv, eq, ne, lt, le, and_, or_, not_,
                      implies, num, app, var, min2, max2, abs_, add, mul, sub, div, lift)
from pv.values import SArr, Sym, SymRaise, Unsupported, decide, term, to_arr, kind_of, is_symbolic
from pv.verify import Unit, Outcome
from pv.shim_sk import SModel, arr_term, row_term, VOID, new_mock

import obp.utils as U


def _fold(name, t):
    """constant arguments are evaluated in floating point, as the code does"""
    t = lift(t)
    if t.sort in ("R", "I"):
        c = nm.norm(t)
        if c.op == "num":
            return num(float(getattr(np, name)(float(c.args[0]))))
    return app(name, t)


def exp(t): return _fold("exp", t)
def log(t): return _fold("log", t)
def sqrt(t): return _fold("sqrt", t)


def ope_inputs(D, q=False, multi_pos=True, reward_kind="float"):
    """standard logged bandit data; position may be None (then one slot)"""
    n = D.dim("n", 1, 5)
    A = D.dim("A", 1, 4)
    L = D.dim("L", 1, 3) if multi_pos else ONE
    d = dict(n=n, A=A, L=L)
    d["reward"] = D.array("reward", (n,), reward_kind)
    d["action"] = D.array("action", (n,), "int", lo=0, hiT=A)
    d["pscore"] = D.array("pscore", (n,), lo=0, lo_strict=True, hi=1)
    d["action_dist"] = D.array("pi", (n, A, L), simplex=1)
    d["position"] = D.array("pos", (n,), "int", lo=0, hiT=L) if multi_pos else None
    if q:
        d["q"] = D.array("q", (n, A, L))
    return d


def pi_at(d, i):
    p = d["position"].at(i) if d["position"] is not None else ZERO
    return d["action_dist"].at(i, d["action"].at(i), p)


def pos_at(d, i):
    return d["position"].at(i) if d["position"] is not None else ZERO


def weight(d, i, ps="pscore"):
    return pi_at(d, i) / d[ps].at(i)


def mean(n, f):
    return Sum(n, f) / n


def inputs_unchanged(rt, *arrs):
    """frame condition: the caller's arrays are not modified"""
    for a in arrs:
        if a is None:
            continue
        if rt.concrete:
            cur = rt.memo.get(id(a))
            if cur is None:
                continue
            name = a.is_input
            rt.n_checks += 1
            if not np.array_equal(cur[1], rt.env.arrays[name]):
                rt.fails.append((f"input {name} is left unchanged", "array contents modified"))
        else:
            ks = [tm.fresh("f", "I", (ZERO, ax.n)) for ax in a.axes]
            rt.check(f"input {a.is_input} is left unchanged", tm.eq(tm.as_num(a.at(*ks)), tm.as_num(a.orig(*ks))))


class FnContract:
    """contract used at call sites instead of the body"""

    def __init__(self, key, fn):
        self.key, self.fn = key, fn

    def apply(self, interp, args):
        return self.fn(**args)


def raise_value(msg="invalid"):
    raise SymRaise(ValueError(msg))


def same_outcome(rt, name, spec, code, exc=ValueError):
    """the code raises `exc` exactly when the specification does"""
    s = spec_outcome(rt, spec)
    c = rt.outcome(code)
    if s.returned:
        rt.check(f"{name}: accepted", c.returned)
    else:
        rt.check(f"{name}: rejected with {exc.__name__}", c.raised(exc))
    return s, c


def spec_outcome(rt, spec):
    try:
        return Outcome("ret", spec())
    except SymRaise as e:
        return Outcome("raise", e.exc)


# ---- opaque names: a term (or array) replaced by a symbol determined by its normal form.
# Abstraction only: equal normal forms get equal symbols, nothing else is known about them.
_OPQ = {}


def opq(rt, mk, *params):
    """opaque scalar mk(*params); equal parameters give equal values"""
    params = [tm.lift(p) for p in params]
    if rt is not None and rt.concrete:
        return mk(*params)
    ps = [tm.var(f"opq_p{j}", p.sort) for j, p in enumerate(params)]
    t = nm.norm(tm.as_num(term(mk(*ps))))
    k = _OPQ.setdefault(("s", t), f"opq{len(_OPQ)}")
    return app(k, *params, sort=t.sort)


def opq_namer(t, params):
    """the same naming for a term met in the code"""
    m = {p: tm.var(f"opq_p{j}", p.sort) for j, p in enumerate(params)}
    u = nm.norm(tm.as_num(tm.subst(t, m)))
    k = _OPQ.setdefault(("s", u), f"opq{len(_OPQ)}")
    return app(k, *params, sort=u.sort)


def opq_arr(rt, axes, mk, *params):
    """opaque array with entries mk(*params)(*idx)"""
    params = [tm.lift(p) for p in params]
    if rt is not None and rt.concrete:
        return mk(*params)
    ps = [tm.var(f"opq_p{j}", p.sort) for j, p in enumerate(params)]
    ks = [tm.var(f"opq_i{j}", "I") for j in range(len(axes))]
    body = tm.as_num(mk(*ps)(*ks))
    for k, n in reversed(list(zip(ks, axes))):
        body = tm.bind_var("lam", n if isinstance(n, T) else n.n, k, body)
    t = nm.norm(body)
    name = _OPQ.setdefault(("a", t), f"opqa{len(_OPQ)}")
    return lambda *i: app(name, *params, *i)


def argmax_facts(rt, t, k):
    """the defining property of a first maximiser, instantiated at k"""
    if rt.concrete or t.op != "argmax":
        return
    n, body = t.args
    b = lambda x: tm.as_num(tm.inst(body, x))
    rng = and_(le(ZERO, k), lt(k, n))
    rt.assume(implies(rng, le(b(k), b(t))))
    rt.assume(implies(and_(rng, lt(k, t)), lt(b(k), b(t))))


def sum_step(rt, f, k):
    """the recursion defining a sum, instantiated at k"""
    rt.assume(implies(le(ZERO, k), eq(Sum(k + ONE, f), Sum(k, f) + f(k))))
