"""Symbolic loops: the body is executed once for an arbitrary iteration k from an
arbitrary ("havocked") pre-state; the resulting transition is matched against the
inductive schemes below, whose closed forms are loop invariants by induction on k:

  append      L_{k+1} = L_k ++ [f(k)]                    =>  L_n = [f(0..n-1)]
  accumulate  x_{k+1} = x_k + d(k)                       =>  x_n = x_0 + sum d
  scale       x_{k+1} = x_k * d(k)                       =>  x_n = x_0 * prod d
  scatter     x_{k+1} = [C(k)] v(k) + (1-[C(k)]) x_k,  C(k) true for at most one k
                                                         =>  x_n = x_0 (1 - sum [C]) + sum [C] v
  overwrite   x_{k+1} = v(k) (independent of x_k)        =>  x_n = v(n-1)  (n >= 1)
"""
from __future__ import annotations
import ast
from fractions import Fraction
import numpy as np
from . import terms as tm
from .terms import T, ZERO, ONE, TRUE, FALSE
from .values import (Sym, SArr, SList, Axis, Unsupported, SymRaise, EngineHook, decide, wrap, term, nterm, to_arr,
                     is_symbolic, kind_of)
from . import norm as nm

UNROLL = 24
LOOPSTAT = {}


class SymIter:
    def __init__(self, n, elem, guard=None):
        self.n, self.elem, self.guard = n, elem, guard

    def concrete(self):
        if self.guard is None and self.n.op == "num" and self.n.args[0] <= UNROLL:
            return [self.elem(tm.num(j)) for j in range(int(self.n.args[0]))]
        return None


class SRange:
    _symbolic_ = True

    def __init__(self, lo, n, step=1):
        self.lo, self.n, self.step = lo, n, step

    def elem(self, k):
        return wrap(tm.add(self.lo, tm.mul(tm.num(self.step), k)), "int")


class SZip:
    _symbolic_ = True

    def __init__(self, its):
        self.its = its


class SEnum:
    _symbolic_ = True

    def __init__(self, it, start=0):
        self.it, self.start = it, start


def sym_iter(it):
    from .interp import TrackList
    r = None
    if isinstance(it, SRange):
        r = SymIter(it.n, it.elem)
    elif isinstance(it, SArr):
        if it.ndim == 0:
            raise SymRaise(TypeError("iteration over a 0-d array"))
        f = it.snapshot()
        ax = it.axes[0]
        if it.ndim == 1:
            r = SymIter(ax.n, lambda k: wrap(f(k), it.kind), ax.guard)
        else:
            r = SymIter(ax.n, lambda k: SArr(it.axes[1:], lambda *i: f(k, *i), it.kind), ax.guard)
    elif isinstance(it, SList):
        r = SymIter(it.n, it.fn, it.axis.guard)
    elif isinstance(it, TrackList) and it.symtail is not None:
        if list.__len__(it):
            raise Unsupported("iteration over mixed list")
        r = SymIter(it.symtail.n, it.symtail.fn, it.symtail.axis.guard)
    elif isinstance(it, SEnum):
        x = sym_iter(it.it)
        if x is None:
            return None
        if not isinstance(x, SymIter):
            return [(it.start + j, v) for j, v in enumerate(x)]
        if x.guard is not None:
            raise Unsupported("enumerate of filtered iterable")
        r = SymIter(x.n, lambda k: (wrap(tm.add(k, term(it.start)), "int"), x.elem(k)))
    elif isinstance(it, SZip):
        xs = []
        for y in it.its:
            x = sym_iter(y)
            if x is None:
                x = list(y)
            xs.append(x)
        if all(not isinstance(x, SymIter) for x in xs):
            return list(zip(*xs))
        ns = [x.n if isinstance(x, SymIter) else tm.num(len(x)) for x in xs]
        xs2 = []
        for x in xs:
            if not isinstance(x, SymIter):
                lst = x
                from .interp import pick
                x = SymIter(tm.num(len(lst)), lambda k, lst=lst: lst[int(k.args[0])] if k.op == "num" else pick(lst, wrap(k)))
            if x.guard is not None:
                raise Unsupported("zip of filtered iterable")
            xs2.append(x)
        n = ns[0]
        for m in ns[1:]:
            if m is n:
                continue
            if decide(tm.le(n, m)):
                continue
            n = m
        r = SymIter(n, lambda k: tuple(x.elem(k) for x in xs2))
    elif hasattr(it, "sym_iter"):
        r = it.sym_iter()
    if r is None:
        return None
    c = r.concrete()
    return c if c is not None else r


# ------------------------------------------------------------- state handling
class RNGBase:
    pass


def reach(roots):
    """mutable objects reachable from roots (by identity)"""
    from .interp import IFunc, Env
    seen = {}
    order = []

    def go(x, d):
        if x is None or isinstance(x, (str, int, float, bool, bytes, type, Sym, T, np.generic)) or d > 8:
            return
        if id(x) in seen:
            return
        if isinstance(x, SArr):
            seen[id(x)] = x
            order.append(x)
            if x.view is not None:
                go(x.view[0], d + 1)
            return
        if isinstance(x, list):
            seen[id(x)] = x
            order.append(x)
            for y in list.__iter__(x):
                go(y, d + 1)
            return
        if isinstance(x, dict):
            seen[id(x)] = x
            order.append(x)
            for y in list(x.values()):
                go(y, d + 1)
            return
        if isinstance(x, tuple):
            for y in x:
                go(y, d + 1)
            return
        if isinstance(x, IFunc):
            e = x.env
            while e is not None:
                for y in list(e.locals.values()):
                    go(y, d + 1)
                e = e.parent
            return
        if getattr(x, "_trackstate_", False) or type(x).__module__.startswith("obp"):
            if hasattr(x, "__dict__") and not callable(getattr(x, "__wrapped__", None)):
                import types
                if isinstance(x, (types.FunctionType, types.MethodType, types.ModuleType)):
                    return
                seen[id(x)] = x
                order.append(x)
                for y in list(vars(x).values()):
                    go(y, d + 1)
    for r in roots:
        go(r, 0)
    return order


class State:
    def __init__(self, env, extra=()):
        self.envs = []
        e = env
        while e is not None:
            self.envs.append((e, dict(e.locals)))
            e = e.parent
        roots = [v for _, d in self.envs for v in d.values()] + list(extra)
        self.objs = []
        for o in reach(roots):
            if isinstance(o, SArr):
                self.objs.append((o, ("arr", o._fn, o.version, o.axes, o.kind)))
            elif isinstance(o, list):
                st = getattr(o, "symtail", None)
                self.objs.append((o, ("list", list(list.__iter__(o)), st, getattr(o, "opaque", False))))
            elif isinstance(o, dict):
                self.objs.append((o, ("dict", dict(o))))
            else:
                self.objs.append((o, ("obj", dict(vars(o)))))

    def restore(self):
        for e, d in self.envs:
            e.locals.clear()
            e.locals.update(d)
        for o, s in self.objs:
            if s[0] == "arr":
                o._fn, o.version = s[1], s[2]
            elif s[0] == "list":
                list.__setitem__(o, slice(None), s[1])
                if hasattr(o, "symtail"):
                    o.symtail, o.opaque = s[2], s[3]
            elif s[0] == "dict":
                dict.clear(o)
                dict.update(o, s[1])
            else:
                vars(o).clear()
                vars(o).update(s[1])

    def diff(self):
        """locations changed since capture: list of (loc, old, new)"""
        out = []
        for e, d in self.envs:
            for k, v in e.locals.items():
                if k not in d or d[k] is not v:
                    out.append((("local", id(e), k), d.get(k, MISSING), v, e))
        for o, s in self.objs:
            if s[0] == "arr":
                if o.version != s[2] or o._fn is not s[1]:
                    out.append((("arr", id(o)), s[1], o._fn, o))
            elif s[0] == "list":
                cur = list(list.__iter__(o))
                st = getattr(o, "symtail", None)
                if st is not s[2]:
                    if s[2] is not None:
                        raise Unsupported("list with a symbolic tail modified in a loop")
                    cur = cur + [TailMark(st)]
                if len(cur) != len(s[1]) or any(a is not b for a, b in zip(cur, s[1])):
                    out.append((("list", id(o)), s[1], cur, o))
            elif s[0] == "dict":
                if any(k not in o for k in s[1]):
                    raise Unsupported("dictionary key removed in a symbolic loop")
                for k, v in o.items():
                    if k not in s[1] or s[1][k] is not v:
                        out.append((("dict", id(o), k), s[1].get(k, MISSING), v, o))
            else:
                if any(k not in vars(o) for k in s[1]):
                    raise Unsupported("attribute removed in a symbolic loop")
                for k, v in vars(o).items():
                    if k not in s[1] or s[1][k] is not v:
                        out.append((("attr", id(o), k), s[1].get(k, MISSING), v, o))
        return out


class TailMark:
    """elements appended by an inner symbolic loop"""

    def __init__(self, tail):
        self.tail = tail


class _Missing:
    def __repr__(self):
        return "MISSING"


MISSING = _Missing()
_uid = [0]


def is_scalar(v):
    return isinstance(v, (Sym, int, float, bool, np.number, np.bool_))


def run_for(interp, node, it, env):
    eng = EngineHook.cur
    n = it.n
    if it.guard is not None:
        guard = it.guard
    else:
        guard = None
    from .interp import _Break, _Continue, _Return, TrackList, Poison
    # empty loop?
    if decide(tm.le(n, ZERO)):
        return
    LOOPSTAT[env.fname] = LOOPSTAT.get(env.fname, 0) + 1
    state = State(env)
    target_names = {x.id for x in ast.walk(node.target) if isinstance(x, ast.Name)}
    k = tm.fresh("k", "I", (ZERO, n))
    havoc = {}        # loc -> (uid, info)
    for attempt in range(6):
        def body():
            state.restore()
            apply_havoc(state, havoc, k)
            base = State(env)
            if guard is not None:
                eng.assume(guard(k))
            ctl = None
            interp.assign(node.target, it.elem(k), env)
            try:
                interp.block(node.body, env)
            except _Continue:
                pass
            except _Break:
                raise Unsupported("break in symbolic loop")
            except _Return:
                raise Unsupported("return in symbolic loop")
            return base.diff()
        # explore the body
        eng_frames = len(eng.frames)
        eng.assume_scope = None
        paths = eng.explore(body, nested=True)
        state.restore()
        newlocs = False
        for conds, kind, val, _c in paths:
            if kind != "ret":
                continue
            for loc, old, new, holder in val:
                if loc in havoc:
                    continue
                if loc[0] == "local" and loc[2] in target_names:
                    continue
                if old is MISSING:
                    continue
                havoc[loc] = make_havoc(loc, old, new, holder, k)
                newlocs = True
        if not newlocs:
            break
    else:
        raise Unsupported("loop state does not stabilise")
    # exceptions raised by some iteration
    for conds, kind, val, _c in paths:
        if kind == "raise":
            c = tm.and_(*conds)
            if guard is not None:
                c = tm.and_(guard(k), c)
            if any_havoc(c, havoc):
                raise Unsupported("exception condition depends on loop state")
            ex = tm.bind_var("exists", n, k, c)
            if decide(ex):
                raise SymRaise(val)
    rets = [(tm.and_(*conds), val) for conds, kind, val, _c in paths if kind == "ret"]
    if not rets:
        raise Unsupported("loop body never completes")
    # merge per location
    posts = {}
    locs = {}
    for c, val in rets:
        for loc, old, new, holder in val:
            locs[loc] = (old, holder)
    for loc in locs:
        vs = []
        for c, val in rets:
            nv = [x for x in val if x[0] == loc]
            vs.append((c, nv[0][2] if nv else UNCHANGED))
        posts[loc] = vs
    # closed forms
    solved = {}
    pending = [loc for loc in locs if loc in havoc]
    subs = []      # (pre-name, closed fn of (k, idx))
    progress = True
    while pending and progress:
        progress = False
        for loc in list(pending):
            r = try_solve(loc, havoc[loc], posts[loc], k, n, guard, subs, havoc, solved)
            if r is not None:
                solved[loc] = r
                pending.remove(loc)
                progress = True
    if pending:
        raise Unsupported("no inductive scheme matches loop-carried state " +
                          ", ".join(str(havoc[p]["desc"]) for p in pending))
    # install results
    state.restore()
    for loc in solved:
        solved[loc]()
    for loc in locs:
        if loc in havoc:
            continue
        if loc[0] == "local":
            e = locs[loc][1]
            name = loc[2]
            if guard is None and len(rets) == 1 and not has_pre(posts[loc][0][1], havoc):
                v = posts[loc][0][1]
                e.locals[name] = at_last(v, k, n)
            else:
                e.locals[name] = Poison("assigned inside a symbolic loop")
        elif loc[0] in ("attr", "dict"):
            raise Unsupported(f"new attribute/key {loc[2]} created in symbolic loop")


class _Unch:
    pass


UNCHANGED = _Unch()


def at_last(v, k, n):
    from .interp import Poison
    last = nm.norm(tm.sub(n, ONE))
    if isinstance(v, Sym):
        return wrap(tm.subst(v.t, {k: last}), v.kind)
    if isinstance(v, SArr):
        f = v.snapshot()
        if all(a.guard is None and k.id not in a.n.fv for a in v.axes):
            return SArr(v.axes, lambda *i: tm.subst(f(*i), {k: last}), v.kind)
        return Poison("assigned inside a symbolic loop")
    if isinstance(v, (int, float, bool, str)) or v is None:
        return v
    return Poison("assigned inside a symbolic loop")


def has_pre(v, havoc):
    names = {h["name"] for h in havoc.values() if "name" in h}
    if not names:
        return False
    if isinstance(v, Sym):
        return bool(tm.subterms(v.t, lambda t: t.op == "app" and t.args[0] in names))
    if isinstance(v, SArr):
        ks = [tm.fresh_for(a.n, frozenset()) for a in v.axes]
        return bool(tm.subterms(v.at(*ks), lambda t: t.op == "app" and t.args[0] in names))
    return False


def any_havoc(t, havoc):
    names = {h["name"] for h in havoc.values() if "name" in h}
    return bool(tm.subterms(t, lambda x: x.op == "app" and x.args[0] in names))


def make_havoc(loc, old, new, holder, k):
    _uid[0] += 1
    name = f"pre!{_uid[0]}"
    if loc[0] == "arr":
        return {"what": "arr", "name": name, "obj": holder, "old": old, "desc": f"array {holder!r}"[:200]}
    if loc[0] == "list":
        if len(new) < len(old) or any(a is not b for a, b in zip(old, new)):
            raise Unsupported("list modified other than by append in symbolic loop")
        return {"what": "list", "obj": holder, "old": old, "desc": "list"}
    if is_scalar(old):
        kd = kind_of(old)
        nk = kind_of(new) if is_scalar(new) else kd
        if "float" in (kd, nk):
            kd = "float"
        elif "int" in (kd, nk):
            kd = "int"
        return {"what": "scalar", "name": name, "old": old, "kind": kd, "holder": holder, "loc": loc, "desc": f"{loc[0]} {loc[2]}"}
    if isinstance(old, SArr) and isinstance(new, SArr):
        return {"what": "rebind", "name": name, "old": old, "holder": holder, "loc": loc, "desc": f"{loc[0]} {loc[2]}", "kind": new.kind if new.kind == "float" else old.kind}
    return {"what": "opaque", "old": old, "holder": holder, "loc": loc, "desc": f"{loc[0]} {loc[2]}"}


def set_loc(loc, holder, v):
    if loc[0] == "local":
        holder.locals[loc[2]] = v
    elif loc[0] == "attr":
        vars(holder)[loc[2]] = v
    elif loc[0] == "dict":
        dict.__setitem__(holder, loc[2], v)


def apply_havoc(state, havoc, k):
    from .interp import Poison
    for loc, h in havoc.items():
        if h["what"] == "arr":
            o = h["obj"]
            nme = h["name"]
            sort = {"float": "R", "int": "I", "bool": "B"}[o.kind]
            o._fn = (lambda nme, sort: lambda *i: tm.app(nme, k, *i, sort=sort))(nme, sort)
            o.version += 1
        elif h["what"] == "list":
            if hasattr(h["obj"], "opaque"):
                h["obj"].opaque = True
            else:
                raise Unsupported("foreign list modified in symbolic loop")
        elif h["what"] == "scalar":
            sort = {"float": "R", "int": "I", "bool": "B"}[h["kind"]]
            set_loc(loc, h["holder"], Sym(tm.app(h["name"], k, sort=sort), h["kind"]))
        elif h["what"] == "rebind":
            o = h["old"]
            sort = {"float": "R", "int": "I", "bool": "B"}[h["kind"]]
            set_loc(loc, h["holder"], SArr(o.axes, (lambda nme, sort: lambda *i: tm.app(nme, k, *i, sort=sort))(h["name"], sort), h["kind"]))
        else:
            set_loc(loc, h["holder"], Poison("loop-carried value of unsupported type"))


def merged(vs, pre, get):
    """ite-merge of the per-path values"""
    r = None
    for c, v in reversed(vs):
        x = pre if v is UNCHANGED else get(v)
        r = x if r is None else tm.ite(c, x, r)
    return r


def apply_subs(t, subs):
    """replace app(pre-name, k, idx..) by its closed form"""
    if not subs:
        return t
    names = {s[0]: s[1] for s in subs}
    memo = {}

    def go(t):
        r = memo.get(t.id)
        if r is not None:
            return r
        if t.op == "app" and t.args[0] in names:
            r = names[t.args[0]](*[go(a) for a in t.args[1:]])
        elif not any(isinstance(a, T) for a in t.args):
            r = t
        else:
            r = tm.rebuild(t, [go(a) if isinstance(a, T) else a for a in t.args]) if t.op not in tm.BINDERS and t.op != "msum" \
                else tm._mk(t.op, tuple(go(a) if isinstance(a, T) else a for a in t.args), t.sort)
        memo[t.id] = r
        return r
    return go(t)


def closed_scheme(post, name, k, idx, n, guard, pre_atom, havoc_names):
    """post: term for element after iteration k; returns function (m)-> term: value after m iterations
    given initial value x0 term: f(x0, m)"""
    p = nm.nf(post)
    pa = nm.nf(pre_atom)
    (pm, _), = pa.items()
    atom = pm[0][0]
    if guard is not None:
        g = nm.nf(tm.iv(guard(k)))
        p = nm.padd(nm.pmul(g, p), nm.pmul(nm.padd(nm.P1, g, -1), pa))

    def mentions(a):
        return bool(tm.subterms(a, lambda t: t.op == "app" and t.args[0] in havoc_names))
    if idx:
        p = align_reads(p, name, atom, idx)
    coef = nm.P0
    rest = nm.P0
    for m, c in p.items():
        d = dict(m)
        e = d.pop(atom, 0)
        if any(mentions(a) for a in d):
            return None
        if e == 0:
            rest = nm.padd(rest, {m: c})
        elif e == 1:
            coef = nm.padd(coef, {nm.mk_mono_d(d): c})
        else:
            return None
    def S(pp, m):
        """sum over iterations 0..m-1"""
        t = nm.to_term(pp)
        return tm.bind_var("sum", m, k, t)
    if coef == nm.P1:
        return lambda x0, m: tm.add(x0, S(rest, m))
    if not coef:
        rt = nm.to_term(rest)
        return lambda x0, m: tm.ite(tm.le(m, ZERO), x0, tm.subst(rt, {k: nm.norm(tm.sub(m, ONE))}))
    if not rest:
        ct = nm.to_term(coef)
        if not _is01(coef):
            return lambda x0, m: tm.mul(x0, tm.bind_var("prod", m, k, ct))
    C = nm.padd(nm.P1, coef, -1)
    # scatter: C is 0/1 and holds for at most one k
    if at_most_one(C, k):
        # rest must be C*v
        if nm.padd(nm.pmul(C, rest), rest, -1):
            return None
        return lambda x0, m: tm.add(tm.mul(x0, tm.sub(ONE, S(C, m))), S(rest, m))
    if not rest:
        ct = nm.to_term(coef)
        return lambda x0, m: tm.mul(x0, tm.bind_var("prod", m, k, ct))
    # idempotent constant write: C(k) -> constant v
    return None


def align_reads(p, name, atom, idx):
    """[x == e] * pre(.., e) is [x == e] * pre(.., x)"""
    out = nm.P0
    for m, c in p.items():
        zs = [a.args[0] for a, _ in m if a.op == "zero"]
        deltas = set()
        for z in zs:
            q = nm.nf(z)
            deltas.add(nm.to_term(q).id)
            deltas.add(nm.to_term(nm.pscale(q, -1)).id)
        d = {}
        for a, e in m:
            if a.op == "app" and a.args[0] == name and a is not atom and a.args[1] is atom.args[1] and \
                    all(t is x or nm.to_term(nm.nf(tm.sub(t, x))).id in deltas for t, x in zip(a.args[2:], idx)):
                a = atom
            d[a] = d.get(a, 0) + e
        out = nm.padd(out, {nm.mk_mono_d(d): c})
    return out


def _is01(p):
    return False


def at_most_one(C, k):
    """C (0/1 poly) can be 1 for at most one k: every monomial carries the same delta [k == t]"""
    sols = set()
    for m, c in C.items():
        found = None
        for a, e in m:
            if a.op == "zero" and k.id in a.fv:
                t = nm.solve_delta(a, k)
                if t is not None:
                    found = t.id
                    break
        if found is None:
            return False
        sols.add(found)
    return len(sols) == 1


def try_solve(loc, h, vs, k, n, guard, subs, havoc, solved):
    from .interp import Poison, TrackList
    if h["what"] == "list":
        old = h["old"]
        apps = []
        for c, v in vs:
            apps.append((c, [] if v is UNCHANGED else v[len(old):]))
        counts = {len(a) for _, a in apps}
        lst = h["obj"]
        if any(isinstance(x, TailMark) for _, a in apps for x in a):
            if len(apps) != 1 or len(apps[0][1]) != 1 or guard is not None:
                raise Unsupported("irregular nested appends")
            tail = apps[0][1][0].tail
            m = tail.axis.n
            if tail.axis.guard is not None or k.id in m.fv:
                raise Unsupported("irregular nested appends")
            z = tm.fresh("z", "I", (ZERO, m))
            v = tail.fn(z)
            if isinstance(v, SArr):
                from .shim_np import divmod_term as dm
                f, axes = v.snapshot(), v.axes
                if any(a.guard is not None or z.id in a.n.fv or k.id in a.n.fv for a in axes):
                    raise Unsupported("irregular nested appends")
                if any_havoc_names(apply_subs(f(*[tm.fresh_for(a.n, frozenset([k.id, z.id])) for a in axes]), subs), havoc, subs):
                    return None

                def flat_arr(j):
                    q, r = dm(tm.lift(j), m)
                    return SArr(axes, lambda *i: tm.subst(apply_subs(f(*i), subs), {k: q, z: r}), v.kind)
                return lambda: install_list(lst, old, SList(tm.mul(n, m), flat_arr))
            if not is_scalar(v):
                raise Unsupported("nested appends of non-scalars")
            t = apply_subs(term(v), subs)
            if any_havoc_names(t, havoc, subs):
                return None
            kd = kind_of(v)
            from .shim_np import divmod_term

            def flat(j):
                q, r = divmod_term(tm.lift(j), m)
                return wrap(tm.subst(t, {k: q, z: r}), kd)
            return lambda: install_list(lst, old, SList(tm.mul(n, m), flat))
        if counts == {1} and guard is None:
            fnv = list_elem([(c, a[0]) for c, a in apps], k, subs, havoc)
            if fnv is None:
                return None
            return lambda: install_list(lst, old, SList(n, fnv))
        if counts <= {0, 1}:
            conds = tm.or_(*[c for c, a in apps if len(a) == 1])
            conds = apply_subs(conds, subs)
            if any_havoc_names(conds, havoc, subs):
                return None
            fnv = list_elem([(c, a[0]) for c, a in apps if len(a) == 1], k, subs, havoc)
            if fnv is None:
                return None
            g0 = guard

            def gd(j):
                c = tm.subst(conds, {k: j})
                return c if g0 is None else tm.and_(g0(j), c)
            return lambda: install_list(lst, old, SList(n, fnv, gd))
        if len(counts) == 1 and guard is None:
            raise Unsupported("several appends per symbolic iteration")
        return None
    if h["what"] == "opaque":
        if all(v is UNCHANGED for _, v in vs):
            return lambda: None
        vals = [v for _, v in vs]
        if len(vs) == 1 and guard is None and isinstance(vals[0], (str, type(None), bool)):
            return lambda: set_loc(loc, h["holder"], vals[0])
        return lambda: set_loc(loc, h["holder"], Poison("loop-carried value of unsupported type"))
    names = {x["name"] for x in havoc.values() if "name" in x}
    solved_names = {s[0] for s in subs}
    if h["what"] == "scalar":
        sort = {"float": "R", "int": "I", "bool": "B"}[h["kind"]]
        pre = tm.app(h["name"], k, sort=sort)
        for c, v in vs:
            if v is not UNCHANGED and not is_scalar(v):
                return None
        post = apply_subs(merged(vs, pre, term), subs)
        sch = closed_scheme(post, h["name"], k, (), n, guard, pre, names)
        if sch is None:
            return None
        x0 = nterm(h["old"]) if h["kind"] != "bool" else tm.as_num(term(h["old"]))
        subs.append((h["name"], lambda kk: sch(x0, kk)))
        val = sch(x0, n)
        if h["kind"] == "bool":
            val = tm.as_bool(val)
        return lambda: set_loc(loc, h["holder"], wrap(val, h["kind"]))
    if h["what"] in ("arr", "rebind"):
        o = h["obj"] if h["what"] == "arr" else h["old"]
        kind = o.kind if h["what"] == "arr" else h["kind"]
        axes = o.axes
        sort = {"float": "R", "int": "I", "bool": "B"}[kind]
        used = set()
        idx = []
        for a in axes:
            v = tm.fresh("x", "I", (ZERO, a.n))
            idx.append(v)
        pre = tm.app(h["name"], k, *idx, sort=sort)
        if h["what"] == "arr":
            get = lambda f: f(*idx)
        else:
            def get(v):
                if not isinstance(v, SArr) or v.ndim != len(axes):
                    raise Unsupported("loop rebinding changes rank")
                return v.at(*idx)
        try:
            post = apply_subs(merged(vs, pre, get), subs)
        except Unsupported:
            raise
        sch = closed_scheme(post, h["name"], k, idx, n, guard, pre, names)
        if sch is None:
            return None
        x0f = h["old"] if h["what"] == "arr" else o.snapshot()
        subs.append((h["name"], lambda kk, *ii: tm.subst(sch(tm.as_num(x0f(*idx)), kk), dict(zip(idx, ii)))))

        def fn(*ii):
            val = tm.subst(sch(tm.as_num(x0f(*idx)), n), dict(zip(idx, ii)))
            return tm.as_bool(val) if kind == "bool" else val

        def inst():
            if h["what"] == "arr":
                o._fn = fn
                o.version += 1
            else:
                set_loc(loc, h["holder"], SArr(axes, fn, kind))
        return inst
    return None


def any_havoc_names(t, havoc, subs):
    names = {x["name"] for x in havoc.values() if "name" in x}
    return bool(tm.subterms(t, lambda x: x.op == "app" and x.args[0] in names))


def list_elem(cvs, k, subs, havoc):
    """element function for appended values"""
    vals = [v for _, v in cvs]
    if all(is_scalar(v) for v in vals):
        kinds = {kind_of(v) for v in vals}
        kd = "float" if "float" in kinds else "int" if "int" in kinds else "bool"
        t = apply_subs(merged(cvs, None, term), subs)
        if any_havoc_names(t, havoc, subs):
            return None
        return lambda j: wrap(tm.subst(t, {k: j}), kd)
    if len(vals) == 1 or all(v is vals[0] for v in vals):
        v = vals[0]
        return generic_elem(v, k, subs, havoc)
    if all(isinstance(v, SArr) for v in vals):
        nd = vals[0].ndim
        if any(v.ndim != nd for v in vals):
            return None
        fs = [(c, v.snapshot()) for c, v in cvs]
        axes = vals[0].axes

        def el(j):
            return SArr([subst_axis(a, k, j) for a in axes],
                        lambda *i: tm.subst(apply_subs(merged(fs, None, lambda f: f(*i)), subs), {k: j}), vals[0].kind)
        return el
    return None


def subst_axis(a, k, j):
    if k.id in a.n.fv or a.guard is not None:
        g = a.guard
        return Axis(tm.subst(a.n, {k: j}), (lambda i: tm.subst(g(i), {k: j})) if g else None)
    return a


def generic_elem(v, k, subs, havoc):
    if is_scalar(v):
        t = apply_subs(term(v), subs)
        if any_havoc_names(t, havoc, subs):
            return None
        kd = kind_of(v)
        return lambda j: wrap(tm.subst(t, {k: j}), kd)
    if isinstance(v, SArr):
        f = v.snapshot()
        axes = v.axes
        ks = [tm.fresh_for(a.n, frozenset([k.id])) for a in axes]
        if any_havoc_names(apply_subs(f(*ks), subs), havoc, subs):
            return None

        def el(j):
            return SArr([subst_axis(a, k, j) for a in axes],
                        lambda *i: subst_k(apply_subs(f(*i), subs), k, j, i), v.kind)
        return el
    if isinstance(v, (tuple, list)):
        fs = [generic_elem(x, k, subs, havoc) for x in v]
        if any(f is None for f in fs):
            return None
        ty = type(v)
        from .interp import TrackList
        return lambda j: (tuple if ty is tuple else TrackList)(f(j) for f in fs)
    if isinstance(v, str) or v is None:
        return lambda j: v
    if hasattr(v, "subst_k"):
        return lambda j: v.subst_k(k, j)
    return None


def subst_k(t, k, j, idx):
    return tm.subst(t, {k: j})


def install_list(lst, old, tail):
    if lst.symtail is not None:
        raise Unsupported("two symbolic tails")
    list.__setitem__(lst, slice(None), old)
    lst.symtail = tail


class SideEffect(Unsupported):
    pass


class _Append(ast.stmt):
    """statement appending the next element of a comprehension"""
    _fields = ()

    def __init__(self, run):
        super().__init__()
        self.run = run


def nested_comp(interp, gens, env, f):
    """[elt for a in A for b in B ...] is the nested loops appending elt"""
    from .interp import TrackList
    out = TrackList()
    env.locals["$comp"] = out
    body = [_Append(lambda: out.append(f(env)))]
    for g in reversed(gens):
        for i in reversed(g.ifs):
            body = [ast.If(test=i, body=body, orelse=[])]
        body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
    interp.block(body, env)
    if len(list(list.__iter__(out))) == 0 and out.symtail is not None:
        return out.symtail
    return out


def sym_comp(interp, gen, it, env, f):
    """list comprehension over a symbolic iterable (no side effects allowed)"""
    eng = EngineHook.cur
    n = it.n
    if decide(tm.le(n, ZERO)):
        from .interp import TrackList
        return TrackList()
    k = tm.fresh("c", "I", (ZERO, n))
    state = State(env)

    def body():
        state.restore()
        if it.guard is not None:
            eng.assume(it.guard(k))
        base = State(env)
        interp.assign(gen.target, it.elem(k), env)
        ok = all(interp.truth(interp.ev(i, env)) for i in gen.ifs)
        v = f(env) if ok else None
        d = [x for x in base.diff() if not (x[0][0] == "local" and x[0][1] == id(env))]
        if d:
            raise SideEffect("side effect in symbolic comprehension")
        return (ok, v)
    try:
        paths = eng.explore(body, nested=True)
    except SideEffect:
        state.restore()
        if gen.ifs:
            raise
        # [elt for t in it] with effects is a loop that appends
        from .interp import TrackList
        out = TrackList()
        env.locals["$comp"] = out
        call = _Append(lambda: out.append(f(env)))
        run_for(interp, ast.For(target=gen.target, iter=None, body=[call], orelse=[]), it, env)
        if len(list(list.__iter__(out))) == 0 and out.symtail is not None:
            return out.symtail
        return out
    state.restore()
    for conds, kind, val, _c in paths:
        if kind == "raise":
            c = tm.and_(*conds)
            if decide(tm.bind_var("exists", n, k, c)):
                raise SymRaise(val)
    rets = [(tm.and_(*conds), val) for conds, kind, val, _c in paths if kind == "ret"]
    keep = [(c, v[1]) for c, v in rets if v[0]]
    allkept = all(v[0] for _, v in rets)
    el = list_elem(keep, k, [], {})
    if el is None:
        raise Unsupported("comprehension element type")
    gd = None
    if not allkept or it.guard is not None:
        conds = tm.or_(*[c for c, _ in keep])
        if allkept:
            gd = it.guard
        else:
            gd = lambda j: tm.subst(conds, {k: j}) if it.guard is None else tm.and_(it.guard(j), tm.subst(conds, {k: j}))
    return SList(n, el, gd)
