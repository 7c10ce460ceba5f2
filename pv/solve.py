"""Discharging obligations: normal form first, then z3 (UF + arithmetic), with
extensionality for binders and trigger-based instantiation of universally
quantified hypotheses."""
from __future__ import annotations
import time
from fractions import Fraction
import z3
from . import terms as tm
from . import norm as nm
from .terms import T, ZERO, ONE, TRUE, FALSE

STATS = {"z3": 0, "z3_time": 0.0, "nf": 0, "decide": 0}
Z3_TIMEOUT = [4000]


class Ctx:
    """A set of hypotheses (boolean terms)."""

    def __init__(self, hyps=()):
        self.hyps = []
        self.quants = []      # universally quantified hyps (forall n body)
        self.cache = {}
        self.subs = []
        for h in hyps:
            self.add(h)

    def copy(self):
        c = Ctx()
        c.hyps = list(self.hyps)
        c.quants = list(self.quants)
        c.subs = list(self.subs)
        return c

    def add(self, h):
        h = tm.as_bool(h)
        self.cache = {}
        if h is TRUE:
            return
        if h.op == "and":
            for x in h.args:
                self.add(x)
            return
        if h.op == "not" and h.args[0].op == "or":
            for x in h.args[0].args:
                self.add(tm.not_(x))
            return
        if h.op == "not" and h.args[0].op == "exists":
            e = h.args[0]
            h = tm._mk("forall", (e.args[0], tm.not_(e.args[1])), "B")
        if h.op == "exists":
            # skolemise
            k = tm.fresh("sk", "I", (ZERO, h.args[0]))
            self.hyps.append(h)
            self.add(tm.inst(h.args[1], k))
            return
        if h.op == "not" and h.args[0].op == "forall":
            e = h.args[0]
            k = tm.fresh("sk", "I", (ZERO, e.args[0]))
            self.hyps.append(h)
            self.add(tm.not_(tm.inst(e.args[1], k)))
            return
        if h.op == "forall":
            if h not in self.quants:
                self.quants.append(h)
                self.hyps.append(h)
            return
        self.hyps.append(h)
        if h.op == "eq":
            for x, y in (h.args, h.args[::-1]):
                if x.op == "app" and x.args[0] == "nunique":
                    self.subs.append((x, y))
                    break
        q = quantified(h)
        if q is not None:
            self.add(q)


def quantified(h):
    """a comparison with an extremum, or a positive/zero count, as a quantified formula (None: not of that form)"""
    neg = h.op == "not"
    c = h.args[0] if neg else h
    if c.op == "lt" and c.args[0] is ZERO and c.args[1].op == "sum" and c.args[1].args[1].op == "iv":
        n, b = c.args[1].args
        k = tm.fresh("q", "I", (ZERO, n))
        p = tm.inst(b, k).args[0]
        return tm.bind_var("forall", n, k, tm.not_(p)) if neg else tm.bind_var("exists", n, k, p)
    if c.op == "eq":
        x, y = c.args
        if y is ZERO:
            x, y = y, x
        if x is ZERO and y.op == "sum" and y.args[1].op == "iv":
            n, b = y.args
            k = tm.fresh("q", "I", (ZERO, n))
            p = tm.inst(b, k).args[0]
            return tm.bind_var("exists", n, k, p) if neg else tm.bind_var("forall", n, k, tm.not_(p))
    if c.op == "lt":
        x, y = c.args
        if x.op == "min":        # min f < y  <=> exists f < y
            n, b = x.args
            k = tm.fresh("q", "I", (ZERO, n))
            f = tm.inst(b, k)
            return tm.bind_var("forall", n, k, tm.le(y, f)) if neg else tm.bind_var("exists", n, k, tm.lt(f, y))
        if y.op == "max":        # x < max f <=> exists x < f
            n, b = y.args
            k = tm.fresh("q", "I", (ZERO, n))
            f = tm.inst(b, k)
            return tm.bind_var("forall", n, k, tm.le(f, x)) if neg else tm.bind_var("exists", n, k, tm.lt(x, f))
    return None


# ------------------------------------------------------------------ z3 bridge
class Bridge:
    def __init__(self):
        self.memo = {}
        self.funs = {}
        self.apps = []          # app/atom terms seen (for instantiation)
        self.side = []
        self.seen_side = set()
        self.lifted = {}

    def fun(self, name, argsorts, sort):
        key = (name, tuple(argsorts), sort)
        f = self.funs.get(key)
        if f is None:
            S = {"I": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort()}
            f = z3.Function(str(name) + "".join(argsorts) + sort, *[S[a] for a in argsorts], S[sort])
            self.funs[key] = f
        return f

    def b(self, t):
        """bool"""
        if t.sort != "B":
            return self.n(t) != 0
        return self.tr(t)

    def n(self, t):
        if t.sort == "B":
            return z3.If(self.tr(t), z3.IntVal(1), z3.IntVal(0))
        return self.tr(t)

    def real(self, t):
        x = self.n(t)
        return z3.ToReal(x) if x.is_int() else x

    def tr(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self._tr(t)
            self.memo[t.id] = r
        return r

    def arith(self, ts, f):
        xs = [self.n(t) for t in ts]
        if not all(x.is_int() for x in xs):
            xs = [z3.ToReal(x) if x.is_int() else x for x in xs]
        r = xs[0]
        for x in xs[1:]:
            r = f(r, x)
        return r

    def _tr(self, t):
        op, a = t.op, t.args
        if op == "num":
            return z3.IntVal(int(a[0])) if t.sort == "I" else z3.RealVal(str(a[0]))
        if op == "var":
            self.apps.append(t)
            return z3.Const(str(a[0]), {"I": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort()}[t.sort])
        if op == "app":
            args = []
            for x in a[1:]:
                args.append(self.n(x))
            srt = ["I" if x.is_int() else "R" for x in args]
            self.apps.append(t)
            r = self.fun(a[0], srt, t.sort)(*args)
            return r
        if op == "add":
            return self.arith(a, lambda x, y: x + y)
        if op == "mul":
            return self.arith(a, lambda x, y: x * y)
        if op == "inv":
            x = self.real(a[0])
            self.apps.append(t)
            r = self.fun("inv", ["R"], "R")(x)
            return r
        if op == "iv":
            return z3.If(self.b(a[0]), z3.IntVal(1), z3.IntVal(0))
        if op == "ite":
            x, y = self.n(a[1]), self.n(a[2])
            if x.is_int() != y.is_int():
                x = z3.ToReal(x) if x.is_int() else x
                y = z3.ToReal(y) if y.is_int() else y
            return z3.If(self.b(a[0]), x, y)
        if op in ("lt", "le", "eq"):
            x, y = self.n(a[0]), self.n(a[1])
            if x.is_int() != y.is_int():
                x = z3.ToReal(x) if x.is_int() else x
                y = z3.ToReal(y) if y.is_int() else y
            return x < y if op == "lt" else x <= y if op == "le" else x == y
        if op == "pos":
            return self.n(a[0]) > 0
        if op == "zero":
            return self.n(a[0]) == 0
        if op == "bool":
            return self.b(a[0])
        if op == "not":
            return z3.Not(self.b(a[0]))
        if op == "and":
            return z3.And(*[self.b(x) for x in a])
        if op == "or":
            return z3.Or(*[self.b(x) for x in a])
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        # binder nodes: lambda-lift over free variables (canonicalised)
        tn = t
        fvs = sorted(tn.fv)
        key = tn
        args = []
        if fvs:
            vs = [tm._list[i] for i in fvs]
            m = {v: tm.var(f"?{j}", v.sort) for j, v in enumerate(vs)}
            key = tm.subst(tn, m)
            args = [self.tr(v) for v in vs]
        self.apps.append(t)
        if args:
            f = self.fun(f"B{key.id}", [("I" if x.is_int() else "R") if not z3.is_bool(x) else "B" for x in args], t.sort)
            return f(*args)
        return z3.Const(f"B{key.id}", {"I": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort()}[t.sort])


EXTRA_FACTS = []     # callbacks (t)->list of bool terms for an app term t


def facts_for(t):
    """static facts about a term occurrence"""
    out = []
    if t.op == "var":
        r = tm.VARINFO.get(t.id)
        if r is not None:
            out += [tm.le(r[0], t), tm.lt(t, r[1])]
        d = nm.DECL.get(t.args[0])
        if d:
            out += decl_facts(t, d)
    elif t.op == "app":
        f = t.args[0]
        d = nm.DECL.get(f)
        if d:
            out += decl_facts(t, d)
        if f == "exp":
            out.append(tm.lt(ZERO, t))
        if f == "sqrt":
            x = t.args[1]
            out.append(tm.le(ZERO, t))
            out.append(tm.implies(tm.le(ZERO, x), tm.eq(tm.mul(t, t), x)))
        if f == "pow" and tm.is_num(t.args[1]) and 0 < t.args[1].args[0] <= 1:
            out += [tm.lt(ZERO, t), tm.implies(tm.le(ZERO, t.args[2]), tm.le(t, ONE))]
        if f == "mod":
            x, y = t.args[1], t.args[2]
            q = tm.app("idiv", x, y, sort="I")
            out.append(tm.implies(tm.lt(ZERO, y), tm.and_(tm.le(ZERO, t), tm.lt(t, y), tm.eq(x, tm.add(tm.mul(y, q), t)))))
        if f == "idiv":
            x, y = t.args[1], t.args[2]
            r = tm.sub(x, tm.mul(y, t))
            out.append(tm.implies(tm.lt(ZERO, y), tm.and_(tm.le(ZERO, r), tm.lt(r, y))))
        if f in ("floor",):
            out += [tm.le(t, t.args[1]), tm.lt(t.args[1], tm.add(t, ONE))]
        if f == "ceil":
            out += [tm.le(t.args[1], t), tm.lt(t, tm.add(t.args[1], ONE))]
        if f == "trunc":
            x = t.args[1]
            out.append(tm.implies(tm.le(ZERO, x), tm.and_(tm.le(t, x), tm.lt(x, tm.add(t, ONE)))))
    elif t.op == "inv":
        x = t.args[0]
        out.append(tm.implies(tm.ne(x, ZERO), tm.eq(tm.mul(x, t), ONE)))
        out.append(tm.implies(tm.lt(ZERO, x), tm.lt(ZERO, t)))
        out.append(tm.implies(tm.eq(x, ZERO), tm.eq(t, ZERO)))
    elif t.op in ("argmax", "argmin"):
        n = t.args[0]
        out += [tm.le(ZERO, t), tm.implies(tm.lt(ZERO, n), tm.lt(t, n))]
    elif t.op in ("max", "min"):
        # attained
        n, body = t.args
        am = tm._mk("argmax" if t.op == "max" else "argmin", (n, body), "I")
        out.append(tm.implies(tm.lt(ZERO, n), tm.eq(t, tm.inst(body, am))))
        out += [tm.le(ZERO, am), tm.implies(tm.lt(ZERO, n), tm.lt(am, n))]
    elif t.op in ("msum", "sum"):
        s = nm.sign_atom(t) if t.op == "msum" else "?"
        if s == "+": out.append(tm.lt(ZERO, t))
        elif s == "0+": out.append(tm.le(ZERO, t))
        elif s == "-": out.append(tm.lt(t, ZERO))
        elif s == "0-": out.append(tm.le(t, ZERO))
    for cb in EXTRA_FACTS:
        out += cb(t)
    return out


def decl_facts(t, d):
    out = []
    if d.get("lo") is not None:
        lo = tm.lift(d["lo"])
        out.append(tm.lt(lo, t) if d.get("lo_strict") else tm.le(lo, t))
    if d.get("hi") is not None:
        hi = tm.lift(d["hi"])
        out.append(tm.lt(t, hi) if d.get("hi_strict") else tm.le(t, hi))
    if d.get("hiT") is not None:      # symbolic exclusive upper bound
        h = d["hiT"](*t.args[1:]) if callable(d["hiT"]) else d["hiT"]
        out.append(tm.lt(t, h))
    if d.get("fact") is not None:
        out += list(d["fact"](t))
    return out


def match(pat, t, k_depth_fv, binding):
    """match pattern (terms with pattern vars = set ids) against t"""
    if pat.op == "var" and pat.id in k_depth_fv:
        b = binding.get(pat.id)
        if b is None:
            if t.sort != "I":
                return False
            binding[pat.id] = t
            return True
        return b is t
    if pat is t:
        return True
    if pat.op != t.op or len(pat.args) != len(t.args):
        return False
    if not (pat.fv & k_depth_fv):
        return False
    if pat.op in ("app",):
        if pat.args[0] != t.args[0]:
            return False
        return all(match(p, u, k_depth_fv, binding) for p, u in zip(pat.args[1:], t.args[1:]))
    if pat.op == "var" or pat.op == "bv":
        return False
    for p, u in zip(pat.args, t.args):
        if isinstance(p, T) != isinstance(u, T):
            return False
        if isinstance(p, T):
            if not match(p, u, k_depth_fv, binding):
                return False
        elif p != u:
            return False
    return True


PATOPS = ("app", "sum", "msum", "max", "min", "argmax", "argmin", "prod")


def quant_parts(q):
    """strip nested foralls -> (vars, ranges, body)"""
    ks, ns = [], []
    body = q
    avoid = set(q.fv)
    while body.op == "forall":
        k = tm.fresh_for(tm._mk("app", ("$pat",), "I"), avoid | body.fv)
        tm.VARINFO.pop(k.id, None)
        avoid.add(k.id)
        ks.append(k)
        ns.append(body.args[0])
        body = tm.inst(body.args[1], k)
    return ks, ns, body


_qp = {}


def instantiate(quants, terms, limit=60):
    """instances of quantified hypotheses triggered by terms"""
    out = []
    for q in quants:
        p = _qp.get(q.id)
        if p is None:
            ks, ns, body = quant_parts(q)
            pids = frozenset(k.id for k in ks)
            pats = tm.subterms(body, lambda u: u.op in PATOPS and (u.fv & pids) and u.lb == 0)
            p = _qp[q.id] = (ks, ns, body, pids, pats)
        ks, ns, body, pids, pats = p
        found = []
        seen = set()

        def emit(binding):
            key = tuple(binding[k.id].id for k in ks)
            if key in seen:
                return
            seen.add(key)
            found.append({k: binding[k.id] for k in ks})
        full = [pt for pt in pats if pids <= pt.fv]
        if full:
            for pt in full:
                for t in terms:
                    if t.op == pt.op:
                        bnd = {}
                        if match(pt, t, pids, bnd) and len(bnd) == len(ks):
                            emit(bnd)
        elif pats:
            # multi-trigger: combine greedily
            partial = [{}]
            for pt in pats:
                if pids <= set().union(*[set(b) for b in partial]) if partial[0] else False:
                    break
                new = []
                for bnd in partial:
                    for t in terms:
                        if t.op == pt.op:
                            b2 = dict(bnd)
                            if match(pt, t, pids, b2):
                                new.append(b2)
                if new:
                    partial = new[:200]
            for bnd in partial:
                if len(bnd) == len(ks):
                    emit(bnd)
        # body mentions the index variable itself: try index terms
        if not found and len(ks) == 1:
            for t in terms:
                if t.op == "var" and t.id in tm.VARINFO and t.sort == "I":
                    if tm.VARINFO[t.id][1] is ns[0]:
                        emit({ks[0].id: t})
        for m in found[:limit]:
            conds = []
            for k, n in zip(ks, ns):
                n2 = tm.subst(n, m)
                conds += [tm.le(ZERO, m[k]), tm.lt(m[k], n2)]
            out.append(tm.implies(tm.and_(*conds), tm.subst(body, m)))
    return out


def closed_atoms(ts):
    """all locally closed app/var/inv/binder subterms"""
    seen = set()
    out = []

    def go(t):
        if t.id in seen:
            return
        seen.add(t.id)
        if t.lb == 0 and t.op in ("app", "var", "inv", "argmax", "argmin", "max", "min", "msum", "sum", "forall", "prod"):
            out.append(t)
        for a in t.args:
            if isinstance(a, T):
                go(a)
    for t in ts:
        go(t)
    return out


# ------------------------------------------------- negation normal form / skolem
_cl = {}


def clausify(h):
    """-> (ground facts, quantified facts): skolemised, universals pulled out"""
    r = _cl.get(h.id)
    if r is None:
        if not has_quant(h):
            r = ((h,), ())
        else:
            t = nnf(h, True, ())
            ground, quants = [], []
            parts = t.args if t.op == "and" else (t,)
            for x in parts:
                (quants if x.op == "forall" else ground).append(x)
            r = (tuple(ground), tuple(quants))
        _cl[h.id] = r
    return r


_hq = {}


def has_quant(t):
    """propositional skeleton contains a quantifier or a comparison with an extremum"""
    r = _hq.get(t.id)
    if r is None:
        if t.op in ("forall", "exists"):
            r = True
        elif t.op in ("and", "or", "not", "bool"):
            r = any(has_quant(x) for x in t.args if isinstance(x, T))
        elif t.op in ("le", "lt"):
            r = any(x.op in ("max", "min") for x in t.args)
        else:
            r = False
        _hq[t.id] = r
    return r


def prenex_or(xs):
    """or of terms, foralls pulled to the front"""
    out, pre = [], []
    for x in xs:
        while x.op == "forall":
            k = tm.fresh("pq", "I")
            pre.append((k, x.args[0]))
            x = tm.inst(x.args[1], k)
        out.append(x)
    # distribute over one conjunction level if it hides universals
    for i, x in enumerate(out):
        if x.op == "and" and any(y.op == "forall" for y in x.args):
            res = tm.and_(*[prenex_or(out[:i] + [y] + out[i + 1:]) for y in x.args])
            return wrap_forall(pre, res)
    return wrap_forall(pre, tm.or_(*out))


def wrap_forall(pre, body):
    for k, n in reversed(pre):
        if body.op == "and":
            body = tm.and_(*[tm.bind_var("forall", n, k, x, "B") for x in body.args])
        else:
            body = tm.bind_var("forall", n, k, body, "B")
    return body


def nnf(t, pol, univ):
    op, a = t.op, t.args
    if not has_quant(t):
        return t if pol else tm.not_(t)
    if op == "bool":
        return nnf(a[0], pol, univ)
    if op == "not":
        return nnf(a[0], not pol, univ)
    if op in ("and", "or"):
        xs = [nnf(x, pol, univ) for x in a]
        if (op == "and") == pol:
            return tm.and_(*xs)
        return prenex_or(xs)
    if op in ("forall", "exists"):
        n, body = a
        if (op == "forall") == pol:
            k = tm.fresh("q", "I")
            b = nnf(tm.inst(body, k), pol, univ + (k,))
            if b.op == "and":
                return tm.and_(*[tm.bind_var("forall", n, k, x, "B") for x in b.args])
            return tm.bind_var("forall", n, k, b, "B")
        us = [u for u in univ if u.id in t.fv]
        if us:
            sk = tm.app(f"sk{t.id}{'p' if pol else 'n'}", *us, sort="I")
        else:
            sk = tm.var(f"sk{t.id}{'p' if pol else 'n'}", "I")
        return tm.and_(tm.le(ZERO, sk), tm.lt(sk, n), nnf(tm.inst(body, sk), pol, univ))
    if op in ("le", "lt"):
        x, y = a
        if not pol:
            return nnf(tm.lt(y, x) if op == "le" else tm.le(y, x), True, univ)
        mk = tm.le if op == "le" else tm.lt
        atom = t
        if x.op in ("max", "min"):
            n = x.args[0]
            k = tm.fresh("q", "I")
            c = tm.bind_var("forall" if x.op == "max" else "exists", n, k, mk(tm.inst(x.args[1], k), y), "B")
        else:
            n = y.args[0]
            k = tm.fresh("q", "I")
            c = tm.bind_var("forall" if y.op == "min" else "exists", n, k, mk(x, tm.inst(y.args[1], k)), "B")
        _hq[atom.id] = False
        _KEEP.append(atom)
        r = tm.and_(atom_keep(atom), prenex_or([tm.le(n, ZERO), nnf(c, True, univ)]))
        return r
    return t if pol else tm.not_(t)


_KEEP = []


def atom_keep(t):
    return t


def z3_check(hyps, quants, goal, timeout=None, rounds=3, want_model=False):
    """is hyps => goal valid?  returns (status, model) with status 'valid'|'invalid'|'unknown'"""
    t0 = time.time()
    br = Bridge()
    asserted = []
    done = set()
    work, qs = [], []
    for h in list(hyps) + list(quants) + [tm.not_(goal)]:
        g_, q_ = clausify(h)
        work += g_
        qs += q_
    quants = list(dict.fromkeys(qs))
    allterms = list(work)
    base = list(work)
    have = set()
    inst_done = set()
    for _ in range(rounds):
        atoms = closed_atoms(allterms)
        new = []
        for a in atoms:
            if a.id not in have:
                have.add(a.id)
                new += facts_for(a)
        for q in instantiate(quants, atoms):
            new.append(q)
        new = [x for x in new if x.id not in inst_done and x is not TRUE]
        for x in new:
            inst_done.add(x.id)
        if not new:
            break
        base += new
        allterms += new
        if len(base) > 1500:
            break
    s = z3.Solver()
    s.set("timeout", timeout or Z3_TIMEOUT[0])
    for h in base:
        s.add(br.b(h))
    # nested existential/negated binder hypotheses stay opaque (sound for validity)
    r = s.check()
    STATS["z3"] += 1
    STATS["z3_time"] += time.time() - t0
    if r == z3.unsat:
        return "valid", None
    if r == z3.sat:
        return "invalid", (s.model(), br) if want_model else None
    return "unknown", None


# ----------------------------------------------------------------- prove
def replace_term(t, old, new):
    """replace a closed subterm"""
    memo = {}

    def go(t):
        if t is old:
            return new
        r = memo.get(t.id)
        if r is None:
            args = tuple(go(a) if isinstance(a, T) else a for a in t.args)
            r = t if args == t.args else tm.rebuild(t, args)
            memo[t.id] = r
        return r
    return go(t)


def prove(goal, ctx, depth=0, timeout=None):
    """True iff goal is discharged from ctx."""
    goal = tm.as_bool(goal)
    if goal is TRUE:
        return True
    key = ("p", goal.id)
    if key in ctx.cache:
        return ctx.cache[key]
    ctx.cache[key] = False
    g = goal
    for x, y in ctx.subs:
        g = replace_term(g, x, y)
    if g is not goal:
        goal = tm.as_bool(g)
        if goal is TRUE:
            ctx.cache[key] = True
            return True
    r = _prove(goal, ctx, depth, timeout)
    ctx.cache[key] = r
    return r


def _prove(goal, ctx, depth, timeout):
    if depth > 8:
        return False
    if goal.op == "and":
        return all(prove(g, ctx, depth + 1, timeout) for g in goal.args)
    if goal.op == "forall":
        k, n, body = tm.open_binder(goal, frozenset().union(*[h.fv for h in ctx.hyps]) if ctx.hyps else frozenset())
        c = ctx.copy()
        c.hyps += [tm.le(ZERO, k), tm.lt(k, n)]
        return prove(body, c, depth + 1, timeout)
    if goal.op == "not" and goal.args[0].op == "exists":
        e = goal.args[0]
        return prove(tm._mk("forall", (e.args[0], tm.not_(e.args[1])), "B"), ctx, depth, timeout)
    if goal.op == "or":
        # prove one disjunct assuming the negation of the others
        for i, g in enumerate(goal.args):
            if g.op in ("forall", "and") or (g.op == "not" and g.args[0].op in ("exists", "or")) or g.op == "eq":
                c = ctx.copy()
                for j, h in enumerate(goal.args):
                    if j != i:
                        c.add(tm.not_(h))
                if prove(g, c, depth + 1, timeout):
                    return True
    if goal.op == "not" and goal.args[0].op == "or":
        return all(prove(tm.not_(g), ctx, depth + 1, timeout) for g in goal.args[0].args)
    if goal.op == "not" and goal.args[0].op == "and":
        return prove(tm.or_(*[tm.not_(g) for g in goal.args[0].args]), ctx, depth + 1, timeout)
    try:
        p = nm.nf(goal)
        if p == nm.P1:
            STATS["nf"] += 1
            return True
    except nm.TooBig:
        p = None
    if goal.op == "eq" and goal.args[0].sort != "B":
        if prove_eq(goal.args[0], goal.args[1], ctx, depth, timeout):
            return True
        return False
    g2 = tm.as_bool(nm.to_term(p)) if p is not None else goal
    st = None
    for g in ([goal] if g2 is goal else [goal, g2]):
        hy = ctx.hyps if g is goal else ctx.hyps + normed(ctx)
        st, _ = z3_check(hy, ctx.quants, g, timeout)
        if st == "valid":
            return True
    return False


def normed(ctx):
    out = []
    for h in ctx.hyps:
        if h.op == "forall":
            continue
        try:
            p = nm.nf(h)
            if p != nm.P1:
                out.append(tm.as_bool(nm.to_term(p)))
        except nm.TooBig:
            pass
    return out


def decide(b, ctx, timeout=None):
    """True / False / None"""
    STATS["decide"] += 1
    if b is TRUE:
        return True
    if b is FALSE:
        return False
    if prove(b, ctx, 0, timeout):
        return True
    if prove(tm.not_(b), ctx, 0, timeout):
        return False
    return None


def simp_poly(p, ctx, limit=12):
    """replace 0/1 atoms decided by ctx; drop monomials"""
    atoms = {}
    for m in p:
        for a, e in m:
            if nm.is_iv(a):
                atoms[a] = atoms.get(a, 0) + 1
    changed = False
    for a in list(atoms)[:limit]:
        if a.op == "forall":
            d = decide_quick(a, ctx)
        else:
            d = decide_quick(a, ctx)
        if d is None:
            continue
        changed = True
        q = {}
        for m, c in p.items():
            if any(b is a for b, _ in m):
                if d is False:
                    continue
                m = tuple((b, e) for b, e in m if b is not a)
            y = q.get(m, 0) + c
            if y:
                q[m] = y
            else:
                q.pop(m, None)
        p = q
    return p, changed


def decide_quick(a, ctx):
    key = ("d", a.id)
    if key in ctx.cache:
        return ctx.cache[key]
    b = a.args[0] if a.op == "bool" else a
    if b.op == "forall":
        r = True if prove(b, ctx, 1) else None
        if r is None:
            st, _ = z3_check(ctx.hyps, ctx.quants, tm.not_(b), 1500)
            r = False if st == "valid" else None
    else:
        st, _ = z3_check(ctx.hyps, ctx.quants, b, 1500)
        if st == "valid":
            r = True
        else:
            st, _ = z3_check(ctx.hyps, ctx.quants, tm.not_(b), 1500)
            r = False if st == "valid" else None
    ctx.cache[key] = r
    return r


def prove_eq(a, b, ctx, depth=0, timeout=None):
    try:
        p = nm.padd(nm.nf(a), nm.nf(b), -1)
    except nm.TooBig:
        st, _ = z3_check(ctx.hyps, ctx.quants, tm.eq(a, b), timeout)
        return st == "valid"
    if not p:
        STATS["nf"] += 1
        return True
    return prove_zero(p, ctx, depth, timeout)


def rewrite_atoms(p, ctx, depth):
    """simplify arguments of atoms using ctx (indices, extremum bodies): merge
    atoms that are provably equal (congruence)."""
    atoms = []
    for m in p:
        for a, e in m:
            if a not in atoms and not nm.is_iv(a):
                atoms.append(a)
    reps = []
    mp = {}
    for a in atoms:
        for r in reps:
            if same_shape(a, r) and atoms_equal(a, r, ctx, depth):
                mp[a] = r
                break
        else:
            reps.append(a)
    if not mp:
        return p, False
    q = nm.P0
    for m, c in p.items():
        t = nm.pconst(c)
        for a, e in m:
            t = nm.pmul(t, nm.patom(mp.get(a, a), e))
        q = nm.padd(q, t)
    return q, True


def same_shape(a, b):
    if a.op != b.op or len(a.args) != len(b.args):
        return False
    if a.op == "app":
        return a.args[0] == b.args[0] and len(a.args) > 1
    return a.op in ("max", "min", "prod", "argmax", "argmin", "add", "sum", "lam") or (a.op == "msum")


def atoms_equal(a, b, ctx, depth):
    if a.op == "app":
        return all(prove(tm.eq(x, y), ctx, depth + 1, 1500) for x, y in zip(a.args[1:], b.args[1:]))
    if a.op == "msum":
        if a.args[:-1] != b.args[:-1]:
            return False
        avoid = frozenset().union(*[h.fv for h in ctx.hyps]) if ctx.hyps else frozenset()
        ks, ns, ba = nm.open_msum(a, avoid | b.fv)
        bb = b.args[-1]
        for k in reversed(ks):
            bb = tm.inst(bb, k)
        c = ctx.copy()
        for k, n in zip(ks, ns):
            c.hyps += [tm.le(ZERO, k), tm.lt(k, n)]
        return prove(tm.eq(ba, bb), c, depth + 1)
    if a.op == "add":
        return prove_eq(a, b, ctx, depth + 1)
    if a.args[0] is not b.args[0] and not prove(tm.eq(a.args[0], b.args[0]), ctx, depth + 1):
        return False
    avoid = frozenset().union(*[h.fv for h in ctx.hyps]) if ctx.hyps else frozenset()
    k = tm.fresh_for(a.args[0], a.fv | b.fv | avoid)
    c = ctx.copy()
    c.hyps += [tm.le(ZERO, k), tm.lt(k, a.args[0])]
    return prove(tm.eq(tm.inst(a.args[1], k), tm.inst(b.args[1], k)), c, depth + 1)


def prove_zero(p, ctx, depth=0, timeout=None):
    """p (Poly) == 0 under ctx"""
    if not p:
        return True
    if depth > 8:
        return False
    # 0. decided conditions
    p, _ = simp_poly(p, ctx)
    if not p:
        return True
    # 1. non-zero facts from ctx let x*[x!=0] vanish: handled by simp_poly on zero atoms
    # 2. combine sums with the same range and prove bodies cancel pointwise
    if combine_sums(p, ctx, depth):
        return True
    # 3. clear denominators
    q = clear_den(p, ctx, depth)
    if q is not None:
        q, _ = simp_poly(q, ctx)
        if not q:
            return True
        if combine_sums(q, ctx, depth):
            return True
        p = q
    # 4. congruence on atoms
    q, ch = rewrite_atoms(p, ctx, depth)
    if ch:
        if not q:
            return True
        return prove_zero(q, ctx, depth + 1, timeout)
    st, _ = z3_check(ctx.hyps + normed(ctx), ctx.quants, tm.eq(nm.to_term(p), ZERO), timeout)
    if st == "valid":
        return True
    # 5. case split on an equality that determines a variable
    if split_eq(p, ctx, depth, timeout):
        return True
    # 6. case split on a condition nested inside a function argument
    return split_zero(p, ctx, depth, timeout)


def split_eq(p, ctx, depth, timeout):
    if SPLITS[0] >= 3:
        return False
    best = None
    for m in p:
        for a, _ in m:
            if a.op == "zero" and a.lb == 0:
                q = nm.nf(a.args[0])
                for mm, c in q.items():
                    if len(mm) == 1 and mm[0][1] == 1 and mm[0][0].op == "var" and abs(c) == 1:
                        x = mm[0][0]
                        if all(x.id not in y.fv for m2 in q if m2 is not mm for y, _ in m2) and (best is None or x.id > best[1].id):
                            rest = {m2: c2 for m2, c2 in q.items() if m2 is not mm}
                            best = (a, x, nm.to_term(nm.pscale(rest, -1 / c)))
    if best is None:
        return False
    a, x, e = best
    t = nm.to_term(p)
    SPLITS[0] += 1
    try:
        cc = ctx.copy()
        cc.add(tm.eq(x, e))
        if not prove_zero(nm.nf(tm.subst(t, {x: e})), cc, depth + 1, timeout):
            return False
        cc = ctx.copy()
        cc.add(tm.ne(x, e))
        return prove_zero(nm.nf(replace_term(t, a, FALSE)), cc, depth + 1, timeout)
    except nm.TooBig:
        return False
    finally:
        SPLITS[0] -= 1


SPLITS = [0]


def nested_conds(t):
    """closed atomic conditions occurring below a function symbol"""
    out, seen = [], set()

    def go(x, under):
        if not isinstance(x, T) or (x.id, under) in seen:
            return
        seen.add((x.id, under))
        if x.sort == "B" and x.lb == 0 and under and x.op in ("le", "lt", "eq", "pos", "zero"):
            if x not in out:
                out.append(x)
            return
        for a in x.args:
            go(a, under or x.op == "app")
    go(t, False)
    return out


def split_zero(p, ctx, depth, timeout):
    if SPLITS[0] >= 3:
        return False
    t = nm.to_term(p)
    cs = [c for c in nested_conds(t) if tm.not_(c) not in ctx.hyps and c not in ctx.hyps]
    if not cs or len(cs) > 4:
        return False
    c = cs[0]
    SPLITS[0] += 1
    try:
        cases = [(c, TRUE, c), (tm.not_(c), FALSE, tm.not_(c))]
        for h, v, cond in cases:
            cc = ctx.copy()
            cc.add(h)
            u = replace_term(t, c, v)
            if v is TRUE and c.op == "le" and tm.le(c.args[1], c.args[0]) in cc.hyps:
                a, b = c.args if c.args[1].op != "var" else c.args[::-1]
                if tm.is_num(b) or a.op == "var":
                    u = replace_term(u, a, b)
            if not prove_zero(nm.nf(u), cc, depth + 1, timeout):
                return False
        return True
    except nm.TooBig:
        return False
    finally:
        SPLITS[0] -= 1


def combine_sums(p, ctx, depth):
    """group monomials coef*rest*msum(ranges) by (rest, ranges), prove each pointwise sum zero"""
    groups = {}
    other = nm.P0
    for m, c in p.items():
        s = [a for a, e in m if a.op == "msum" and e == 1]
        if len(s) != 1:
            # choose none
            if len(s) == 0:
                other = nm.padd(other, {m: c})
                continue
        a = s[0]
        rest = tuple((b, e) for b, e in m if b is not a)
        groups.setdefault((nm.mono_key(rest), tuple(n.id for n in a.args[:-1])), []).append((c, a, rest))
    if other:
        return False
    if not groups:
        return False
    avoid = frozenset().union(*[h.fv for h in ctx.hyps]) if ctx.hyps else frozenset()
    for key, items in groups.items():
        if len(items) == 1 and False:
            return False
        av = avoid
        for _, a, _r in items:
            av = av | a.fv
        ks, ns, _ = nm.open_msum(items[0][1], av)
        tot = nm.P0
        for c, a, _r in items:
            body = a.args[-1]
            for k in reversed(ks):
                body = tm.inst(body, k)
            tot = nm.padd(tot, nm.nf(body), c)
        if not tot:
            continue
        cc = ctx.copy()
        for k, n in zip(ks, ns):
            cc.hyps += [tm.le(ZERO, k), tm.lt(k, n)]
        if not prove_zero(tot, cc, depth + 1):
            return False
    return True


def clear_den(p, ctx, depth):
    """multiply by denominators (proved non-zero) to remove inverse atoms"""
    negs = {}
    for m in p:
        for a, e in m:
            if e < 0:
                negs[a] = min(negs.get(a, 0), e)
    if not negs:
        return None
    q = p
    did = False
    for a, e in negs.items():
        t = nm.nf(a) if a.op == "add" else nm.patom(a)
        if not nm.nonzero(a) and not prove(tm.ne(a, ZERO), ctx, depth + 1, 2000):
            continue
        did = True
        out = nm.P0
        try:
            for m, c in q.items():
                d = dict(m)
                x = d.pop(a, 0)
                # multiply by a^(-e): new exponent x - e >= 0
                base = {nm.mk_mono_d(d): c}
                k = x - e
                for _ in range(k):
                    base = nm.pmul(base, t)
                out = nm.padd(out, base)
        except nm.TooBig:
            return None
        q = out
    return q if did else None
