"""Counterexample search for a failed obligation.

The failed goal is instantiated at small concrete dimensions, binders are
expanded, z3 is asked for a model of (hypotheses and not goal); the model gives
the contents of the input arrays, which are then replayed on the real code."""
from __future__ import annotations
import ast
import itertools
import time
from fractions import Fraction
import numpy as np
import z3
from . import terms as tm
from . import norm as nm
from . import solve
from .terms import T, ZERO, ONE

MAXEXP = 4000


class Blow(Exception):
    pass


def expand(t, memo=None):
    """expand binders with numeral ranges"""
    memo = {} if memo is None else memo
    if len(memo) > MAXEXP:
        raise Blow()
    r = memo.get(t.id)
    if r is not None:
        return r
    r = _expand(t, memo)
    memo[t.id] = r
    return r


def numeral(t):
    if tm.is_num(t):
        return int(t.args[0])
    try:
        return int(tm.ev(t, tm.Env()))
    except Exception:
        return None


def _expand(t, memo):
    op, a = t.op, t.args
    if op == "msum":
        ns = [numeral(expand(x, memo)) for x in a[:-1]]
        if any(n is None for n in ns):
            raise Blow()
        out = []
        for idx in itertools.product(*[range(n) for n in ns]):
            b = a[-1]
            for k in reversed(idx):
                b = tm.inst(b, tm.num(k))
            out.append(expand(b, memo))
            if len(out) > 400:
                raise Blow()
        return tm.add(*out) if out else ZERO
    if op in tm.BINDERS:
        if op == "lam":
            return t
        n = numeral(expand(a[0], memo))
        if n is None or n > 200:
            raise Blow()
        xs = [expand(tm.inst(a[1], tm.num(k)), memo) for k in range(n)]
        if op == "sum":
            return tm.add(*xs) if xs else ZERO
        if op == "prod":
            return tm.mul(*xs) if xs else ONE
        if op == "forall":
            return tm.and_(*xs) if xs else tm.TRUE
        if op == "exists":
            return tm.or_(*xs) if xs else tm.FALSE
        if not xs:
            return ZERO
        if op in ("max", "min"):
            r = xs[0]
            for x in xs[1:]:
                r = (tm.max2 if op == "max" else tm.min2)(r, x)
            return r
        # argmax / argmin: first extremal index
        idx, best = ZERO, xs[0]
        for k, x in enumerate(xs[1:], 1):
            c = tm.lt(best, x) if op == "argmax" else tm.lt(x, best)
            idx = tm.ite(c, tm.num(k), idx)
            best = tm.ite(c, x, best)
        return idx
    if op in ("num", "var", "bv", "true", "false"):
        return t
    args = tuple(expand(x, memo) if isinstance(x, T) else x for x in a)
    return tm.rebuild(t, args)


def to_py(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        w = v.approx(20)
        return float(Fraction(w.numerator_as_long(), w.denominator_as_long()))
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return None


def models(D, goal, ctx, seed=0, limit=12, budget=25.0):
    """yield candidate `fixed` dicts"""
    t0 = time.time()
    rng = np.random.RandomState(seed)
    dims = [e for e in D.entries if e[0] == "dim"]
    combos = []
    ranges = [list(range(e[2], max(e[2], min(e[3], e[2] + 2)) + 1)) for e in dims]
    allc = list(itertools.islice(itertools.product(*ranges), 4000))
    rng.shuffle(allc)
    allc.sort(key=lambda c: sum(c))
    mid = [c for c in allc if sum(c) <= 10]
    pick = mid[:3] + [mid[i] for i in rng.choice(len(mid), size=min(limit, len(mid)), replace=False)] if mid else allc[:4]
    for combo in pick:
        if time.time() - t0 > budget:
            return
        m = {tm.var(e[1], "I"): tm.num(int(v)) for e, v in zip(dims, combo)}
        try:
            memo = {}
            ex = lambda x: expand(tm.subst(x, m), memo)
            cons = [ex(h) for h in ctx.hyps] + [ex(tm.not_(goal))] + [ex(h) for h in D.hyps]
            cells = {}
            for e in D.entries:
                if e[0] != "arr":
                    continue
                _, name, shape, kind, d, simplex, gen = e
                sh = [numeral(ex(s)) for s in shape]
                if any(s is None for s in sh) or int(np.prod(sh)) > 120:
                    raise Blow()
                sort = {"float": "R", "int": "I", "bool": "B"}[kind]
                arr = np.empty(sh, dtype=object)
                for idx in np.ndindex(*sh):
                    arr[idx] = tm.app(name, *[tm.num(i) for i in idx], sort=sort)
                    cons += [ex(f) for f in solve.facts_for(arr[idx])]
                if simplex is not None:
                    for idx in np.ndindex(*[s for j, s in enumerate(sh) if j != simplex]):
                        sl = list(idx)
                        sl.insert(simplex, slice(None))
                        cons.append(tm.eq(tm.add(*list(arr[tuple(sl)].ravel())), ONE))
                cells[name] = arr
            done = set()
            for _ in range(2):
                for at in solve.closed_atoms(cons):
                    if at.id in done:
                        continue
                    done.add(at.id)
                    cons += [ex(f) for f in solve.facts_for(at)]
            br = solve.Bridge()
            s = z3.Solver()
            s.set("timeout", 4000)
            s.set("random_seed", int(rng.randint(1000)))
            for c in cons:
                s.add(br.b(tm.as_bool(c)))
            if s.check() != z3.sat:
                continue
            mod = s.model()
        except (Blow, nm.TooBig, RecursionError, z3.Z3Exception, AttributeError, ValueError, TypeError):
            continue
        fixed = {e[1]: int(v) for e, v in zip(dims, combo)}
        for e in D.entries:
            if e[0] in ("int", "real", "bool"):
                t = tm.var(e[1], {"int": "I", "real": "R", "bool": "B"}[e[0]])
                v = to_py(mod.eval(br.tr(t), model_completion=True))
                if v is not None:
                    fixed[e[1]] = v
            elif e[0] == "arr":
                arr = cells[e[1]]
                out = np.empty(arr.shape, dtype={"float": float, "int": int, "bool": bool}[e[3]])
                ok = True
                for idx in np.ndindex(*arr.shape):
                    v = to_py(mod.eval(br.tr(arr[idx]), model_completion=True))
                    if v is None:
                        ok = False
                        break
                    out[idx] = v
                if ok:
                    fixed[e[1]] = out
        yield fixed


def harvest_terms(ts, out=None):
    out = set() if out is None else out
    seen = set()

    def go(t):
        if t.id in seen:
            return
        seen.add(t.id)
        if t.op == "num":
            out.add(t.args[0])
        for x in t.args:
            if isinstance(x, T):
                go(x)
    for t in ts:
        go(t)
    return out


def harvest_source(keys):
    """numeric constants in the interpreted functions"""
    from .interp import node_for_key
    out = set()
    for k in keys:
        n = node_for_key(k)
        if n is None:
            continue
        for x in ast.walk(n):
            if isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) and not isinstance(x.value, bool):
                try:
                    out.add(Fraction(repr(x.value)))
                except ValueError:
                    pass
    return out
