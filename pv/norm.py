"""Normal form: polynomials over atoms (Fractions as coefficients).

Sums are linear, flattened into multi-sums whose body is one monomial, split into
independent factors, and Kronecker deltas are eliminated.  Conditions are 0/1
valued atoms (Iverson brackets).  Everything is an identity valid in the reals
with 1/0 = 0, under the static declarations (bounds of input arrays)."""
from __future__ import annotations
from fractions import Fraction
import itertools
import sys
from . import terms as tm
from .terms import T, _mk, num, ZERO, ONE

sys.setrecursionlimit(20000)

DECL = {}          # function/variable name -> dict(lo=,lo_strict=,hi=,hi_strict=, hiT=, loT=)
SUM_RULES = []     # list of functions (ranges, mono)->Poly|None
NONZERO = set()    # atom ids known non-zero
SIMPLEX = {}       # array name -> (axis, n): non-negative and sums to one along axis
_memo = {}
DECIDER = [None]   # callback(boolterm)->True/False/None, static context only
STAT = {"nf": 0}


def reset():
    DECL.clear()
    SUM_RULES.clear()
    NONZERO.clear()
    SIMPLEX.clear()
    _memo.clear()
    _signmemo.clear()
    DECIDER[0] = None


def clear_memo():
    _memo.clear()
    _signmemo.clear()


# ---------------------------------------------------------------- polynomials
def pconst(c):
    return {(): Fraction(c)} if c != 0 else {}


P0 = {}
P1 = {(): Fraction(1)}


def patom(a, e=1):
    return {((a, e),): Fraction(1)}


def padd(p, q, c=1):
    if not q:
        return p
    r = dict(p)
    for m, x in q.items():
        y = r.get(m, 0) + c * x
        if y:
            r[m] = y
        else:
            r.pop(m, None)
    return r


def pscale(p, c):
    if c == 0:
        return {}
    return {m: x * c for m, x in p.items()}


def is_iv(a):
    return a.op in ("pos", "zero", "bool", "forall")


def mono_key(m):
    return tuple((a.id, e) for a, e in m)


def mmul(m1, m2):
    """product of two monomials -> Poly"""
    if not m1:
        return {m2: Fraction(1)}
    if not m2:
        return {m1: Fraction(1)}
    d = {}
    for a, e in m1:
        d[a] = e
    extra = None
    for a, e in m2:
        if a in d:
            if is_iv(a):
                continue
            s = d[a] + e
            if s == 0:
                del d[a]
                if not nonzero(a):
                    extra = (extra or []) + [a]
            else:
                d[a] = s
        else:
            d[a] = e
    p = finish(d)
    if extra:
        for a in extra:
            z = pzero(nf_atom_poly(a))
            p = pmul(p, padd(P1, z, -1))
    return p


def mk_mono_d(d):
    return tuple(sorted(d.items(), key=lambda x: x[0].id))


def nf_atom_poly(a):
    if a.op == "add":
        return nf(a)
    return patom(a)


def finish(d):
    """apply annihilation rules to a monomial given as dict"""
    zs = [a for a in d if a.op == "zero"]
    for z in zs:
        q = z.args[0]
        # zero(q) * q^e = 0
        if q in d:
            return {}
        if any(a.op == "pos" and a.args[0] is q for a in d):
            return {}
    return {mk_mono_d(d): Fraction(1)}


def pmul(p, q):
    if not p or not q:
        return {}
    if len(p) == 1 and () in p:
        return pscale(q, p[()])
    if len(q) == 1 and () in q:
        return pscale(p, q[()])
    if len(p) * len(q) > 20000:
        raise TooBig()
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            for m, c in mmul(m1, m2).items():
                y = r.get(m, 0) + c * c1 * c2
                if y:
                    r[m] = y
                else:
                    r.pop(m, None)
    return r


def pmul_list(ps):
    r = P1
    for p in ps:
        r = pmul(r, p)
    return r


class TooBig(Exception):
    pass


# --------------------------------------------------------------- poly -> term
def mono_term(m, c=Fraction(1)):
    fs = []
    if c != 1 or not m:
        fs.append(num(c))
    for a, e in m:
        t = iv_term(a)
        if e > 0:
            fs.extend([t] * e)
        else:
            fs.extend([tm.inv(t)] * (-e))
    return tm.mul(*fs) if fs else ONE


def iv_term(a):
    if a.op in ("pos", "zero"):
        return _mk("iv", (a,), "I")
    if a.op == "bool":
        return _mk("iv", (a.args[0],), "I")
    if a.op == "forall":
        return _mk("iv", (a,), "I")
    return a


_p2t = {}


def to_term(p):
    items = sorted(p.items(), key=lambda mc: mono_key(mc[0]))
    if not items:
        return ZERO
    ts = [mono_term(m, c) for m, c in items]
    if len(ts) == 1:
        t = ts[0]
    else:
        s = "I" if all(x.sort == "I" for x in ts) else "R"
        t = _mk("add", ts, s)
    _memo[t.id] = p
    return t


def norm(t):
    return to_term(nf(t))


# -------------------------------------------------------------------- signs
_signmemo = {}


def _dsign(d):
    lo, hi = d.get("lo"), d.get("hi")
    if lo is not None and (lo > 0 or (lo == 0 and d.get("lo_strict"))):
        return "+"
    if lo is not None and lo >= 0:
        return "0+"
    if hi is not None and (hi < 0 or (hi == 0 and d.get("hi_strict"))):
        return "-"
    if hi is not None and hi <= 0:
        return "0-"
    return "?"


def sign_atom(a):
    r = _signmemo.get(a.id)
    if r is None:
        _signmemo[a.id] = "?"
        r = _sign_atom(a)
        _signmemo[a.id] = r
    return r


def _sign_atom(a):
    if a.id in NONZERO_SIGN:
        return NONZERO_SIGN[a.id]
    if is_iv(a):
        return "0+"
    if a.op == "var":
        d = DECL.get(a.args[0])
        if d:
            return _dsign(d)
        r = tm.VARINFO.get(a.id)
        if r is not None and r[0] is ZERO:
            return "0+"
        return "?"
    if a.op == "app":
        f = a.args[0]
        if f == "exp":
            return "+"
        if f == "sqrt":
            return "+" if sign(nf(a.args[1])) == "+" else "0+"
        if f == "pow":
            return "+" if sign(nf(a.args[1])) == "+" else "?"
        d = DECL.get(f)
        if d:
            return _dsign(d)
        return "?"
    if a.op == "msum":
        ks, ranges, body = open_msum(a)
        s = sign(nf(body))
        if s in ("+", "-"):
            if all(range_pos(n) for n in ranges):
                return s
            return "0" + s
        return s
    if a.op in ("max", "min", "prod"):
        k, n, body = tm.open_binder(a)
        s = sign(nf(body))
        if a.op == "prod":
            return s if s in ("+", "0+") else "?"
        return s
    if a.op in ("argmax", "argmin"):
        return "0+"
    if a.op == "add":
        return sign(nf(a))
    return "?"


NONZERO_SIGN = {}


def range_pos(n):
    return sign(nf(n)) == "+"


def sign_mono(m):
    s = "+"
    for a, e in m:
        x = sign_atom(a)
        if x == "?":
            if e % 2 == 0:
                x = "0+" if not nonzero(a) else "+"
            else:
                return "?"
        elif e % 2 == 0 and x in ("-", "0-"):
            x = {"-": "+", "0-": "0+"}[x]
        z = "0" in s or "0" in x
        neg = ("-" in s) != ("-" in x)
        s = ("0" if z else "") + ("-" if neg else "+")
    return s


def sign(p):
    if not p:
        return "0"
    s = None
    for m, c in p.items():
        x = sign_mono(m)
        if x == "?":
            return "?"
        if c < 0:
            x = x.replace("+", "#").replace("-", "+").replace("#", "-")
        if s is None:
            s = x
        else:
            if ("+" in s) != ("+" in x):
                return "?"
            if not ("0" in s and "0" in x):
                s = "+" if "+" in s else "-"
    return s


def nonzero(a):
    if a.id in NONZERO:
        return True
    if a.op == "app" and a.args[0] == "exp":
        return True
    if a.op == "num":
        return a.args[0] != 0
    return sign_atom(a) in ("+", "-")


def psign_nonneg(p):
    return sign(p) in ("+", "0+", "0")


# ------------------------------------------------------------------ conditions
def is_int_poly(p):
    for m, c in p.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if e < 0:
                return False
            if not (is_iv(a) or a.sort == "I"):
                return False
    return True


def lead(p):
    m = max((m for m in p if m), key=mono_key)
    return m, p[m]


def ppos(p):
    """0/1 polynomial of p > 0"""
    if not p or (len(p) == 1 and () in p):
        return P1 if p and p[()] > 0 else P0
    s = sign(p)
    if s == "+":
        return P1
    if s in ("-", "0-"):
        return P0
    if len(p) == 1:
        (m, c), = p.items()
        # strip factors of known strictly positive sign
        m2 = tuple((a, e) for a, e in m if sign_atom(a) != "+")
        if len(m2) < len(m):
            return ppos({m2: c}) if m2 else (P1 if c > 0 else P0)
        if len(m2) == 1 and is_iv(m2[0][0]):
            return patom(m2[0][0]) if c > 0 else P0
    m, c = lead(p)
    ip = is_int_poly(p)
    if ip:
        g = 0
        import math
        for x in p.values():
            g = math.gcd(g, int(x))
        q = pscale(p, Fraction(1, g)) if g > 1 else p
        # p>0 with non-constant gcd: (g*u + k > 0)  <=> u + floor((k-1)/g)+... handled only for exact division
        if c < 0:
            # q = -r ; -r > 0 <=> r < 0 <=> not (r+1 > 0)
            r = padd(pscale(q, -1), P1)
            if not r or (len(r) == 1 and () in r):
                return P0 if r and r[()] > 0 else P1
            return padd(P1, patom(_mk("pos", (to_term(r),), "B")), -1)
        return patom(_mk("pos", (to_term(q),), "B"))
    q = pscale(p, 1 / abs(c))
    if c < 0:
        r = pscale(q, -1)
        t = to_term(r)
        z = pzero(r)
        return padd(padd(P1, patom(_mk("pos", (t,), "B")), -1), z, -1)
    return patom(_mk("pos", (to_term(q),), "B"))


def pzero(p):
    if not p:
        return P1
    if len(p) == 1 and () in p:
        return P0
    s = sign(p)
    if s in ("+", "-"):
        return P0
    if len(p) == 1:
        (m, c), = p.items()
        m2 = tuple((a, 1) for a, e in m if not nonzero(a))
        if len(m2) != len(m) or any(e != 1 for _, e in m):
            return pzero({m2: Fraction(1)}) if m2 else P0
        if len(m) > 1:
            r = P1   # product is zero iff some factor is
            for a, e in m:
                r = pmul(r, padd(P1, pzero(patom(a)), -1))
            return padd(P1, r, -1)
        if is_iv(m[0][0]):
            return padd(P1, patom(m[0][0]), -1)
    if len(p) == 2:
        # iv - 1 == 0
        ms = list(p.items())
        for (m, c), (m2, c2) in (ms, ms[::-1]):
            if m2 == () and len(m) == 1 and is_iv(m[0][0]):
                if c + c2 == 0:
                    return patom(m[0][0])
                return P0
    m, c = lead(p)
    q = pscale(p, 1 / c)
    if is_int_poly(p):
        q2 = pscale(p, 1 if c > 0 else -1)
        if is_int_poly(q):
            q2 = q
        q = q2
    return patom(_mk("zero", (to_term(q),), "B"))


# -------------------------------------------------------------------- nf proper
def nf(t):
    r = _memo.get(t.id)
    if r is not None:
        return r
    r = _nf(t)
    _memo[t.id] = r
    return r


def pinv(p):
    if not p:
        return {}
    if len(p) == 1:
        (m, c), = p.items()
        r = {(): 1 / c}
        for a, e in m:
            if is_iv(a):
                r = pmul(r, patom(a))
            elif a.op == "add" and e < 0:
                r = pmul(r, pmul_list([nf(a)] * (-e)))
            else:
                r = pmul(r, patom(a, -e))
        return r
    m, c = max(p.items(), key=lambda mc: mono_key(mc[0]))
    q = pscale(p, 1 / c)
    # common factor extraction: inv(x*a + x*b) = inv(x) inv(a+b)
    common = None
    for mm in q:
        d = dict(mm)
        if common is None:
            common = d
        else:
            common = {a: (min(e, d[a]) if e > 0 else max(e, d[a])) for a, e in common.items() if a in d and (d[a] > 0) == (e > 0)}
        if not common:
            break
    # a common negative power: multiply out only if atom known non-zero
    if common:
        common = {a: e for a, e in common.items() if not is_iv(a) and (e > 0 or nonzero(a)) and (e < 0 or nonzero(a) or True)}
    if common:
        cm = mk_mono_d(common)
        minv = mk_mono_d({a: -e for a, e in common.items()})
        q2 = {}
        ok = True
        for mm, cc in q.items():
            d = dict(mm)
            for a, e in common.items():
                d[a] -= e
                if d[a] == 0:
                    del d[a]
            q2[mk_mono_d(d)] = cc
        inner = pinv(q2)
        return pscale(pmul({minv: Fraction(1)}, inner), 1 / c)
    # clear inner inverse atoms that are known non-zero: inv(a*inv(b)+c) = b*inv(a+c*b)
    negs = {}
    for mm in q:
        for a, e in mm:
            if e < 0 and nonzero(a):
                negs[a] = min(negs.get(a, 0), e)
    if negs:
        f = mk_mono_d({a: -e for a, e in negs.items()})
        fp = pmul_list([pmul_list([nf(a)] * (-e)) if a.op == "add" else patom(a, -e) for a, e in negs.items()])
        q2 = pmul(q, fp)
        return pscale(pmul(fp, pinv(q2)), 1 / c)
    return {((to_term(q), -1),): 1 / c}


def _nf(t):
    op, a = t.op, t.args
    STAT["nf"] += 1
    if op == "num":
        return pconst(a[0])
    if op == "var":
        if t.sort == "B":
            return patom(_mk("bool", (t,), "B"))
        return patom(t)
    if op == "app":
        return nf_app(t)
    if op == "add":
        r = P0
        for x in a:
            r = padd(r, nf(x))
        return r
    if op == "mul":
        r = P1
        for x in sorted(a, key=lambda x: len(nf(x))):
            r = pmul(r, nf(x))
        return r
    if op == "inv":
        return pinv(nf(a[0]))
    if op == "iv":
        return nf(a[0])
    if op == "ite":
        c = nf(a[0])
        x, y = nf(a[1]), nf(a[2])
        return padd(pmul(c, padd(x, y, -1)), y)
    if op == "true":
        return P1
    if op == "false":
        return P0
    if op == "not":
        return padd(P1, nf(a[0]), -1)
    if op == "and":
        return pmul_list([nf(x) for x in a])
    if op == "or":
        return padd(P1, pmul_list([padd(P1, nf(x), -1) for x in a]), -1)
    if op == "lt":
        return ppos(padd(nf(a[1]), nf(a[0]), -1))
    if op == "le":
        d = padd(nf(a[1]), nf(a[0]), -1)
        if is_int_poly(d):
            return ppos(padd(d, P1))
        return padd(P1, ppos(pscale(d, -1)), -1)
    if op == "eq":
        return pzero(padd(nf(a[0]), nf(a[1]), -1))
    if op == "pos":
        return ppos(nf(a[0]))
    if op == "zero":
        return pzero(nf(a[0]))
    if op == "bool":
        return patom(t)
    if op == "sum":
        return nf_sum(t)
    if op == "msum":
        ks, ranges, body = open_msum(t)
        return sum_poly(list(zip(ks, [norm(n) for n in ranges])), nf(body))
    if op in ("forall", "exists"):
        return nf_quant(t)
    if op == "prod":
        return nf_prod(t)
    if op in ("max", "min"):
        return nf_extremum(t)
    if op in ("argmax", "argmin", "lam"):
        k, n, body = tm.open_binder(t)
        p = nf(body)
        if op != "lam":
            p = {m: c for m, c in p.items() if depends(m, k)}
            if not p:
                return P0
        n2 = norm(n)
        return patom(_mk(op, (n2, tm.abst(to_term(p), k)), t.sort))
    raise NotImplementedError(op)


def depends(m, k):
    return any(k.id in a.fv for a, _ in m)


def nf_app(t):
    f = t.args[0]
    args = [norm(x) for x in t.args[1:]]
    if f == "pow" and tm.is_num(args[0], 1):
        return P1
    if f == "exp":
        p = nf(args[0])
        r = P1
        for m, c in p.items():
            if m == ():
                r = pmul(r, patom(_mk("app", ("exp", num(c)), "R")))
            elif abs(c.numerator) > 64 or c.denominator > 1024:
                r = pmul(r, patom(_mk("app", ("exp", mono_term(m, c)), "R")))
            elif c.denominator == 1:
                base = _mk("app", ("exp", mono_term(m)), "R")
                r = pmul(r, patom(base, int(c)))
            else:
                base = _mk("app", ("exp", mono_term(m, Fraction(1, c.denominator))), "R")
                r = pmul(r, patom(base, int(c.numerator)))
        return r
    if f == "log":
        p = nf(args[0])
        if len(p) == 1:
            (m, c), = p.items()
            if m == () and c == 1:
                return P0
            if len(m) == 1 and m[0][0].op == "app" and m[0][0].args[0] == "exp" and c == 1:
                return pscale(nf(m[0][0].args[1]), m[0][1])
    if f == "sqrt":
        p = nf(args[0])
        if not p:
            return P0
        if len(p) == 1:
            (m, c), = p.items()
            if m == ():
                import math
                a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if a * a == c.numerator and b * b == c.denominator:
                    return pconst(Fraction(a, b))
    if f in ("argsort", "argrank") and args[2].op == "app" and args[2].args[0] == ("argrank" if f == "argsort" else "argsort") and args[2].args[1:3] == tuple(args[:2]):
        return nf(args[2].args[3])      # a permutation and its inverse
    if f in ("floor", "ceil", "trunc", "round"):
        p = nf(args[0])
        if is_int_poly(p):
            return p
    if f == "mod":
        x, y = nf(args[0]), nf(args[1])
        if x and y and set(x) | set(y) == {()} and y[()] > 0:
            return pconst(x[()] % y[()])
        if t.sort == "I" and y and not (set(y) == {()}):
            # x mod y = x - y*(x div y)
            return padd(x, pmul(y, nf(tm.app("idiv", args[0], args[1], sort="I"))), -1)
    if f == "idiv":
        x, y = nf(args[0]), nf(args[1])
        if y and set(x) | set(y) == {()}:
            return pconst(x.get((), Fraction(0)) // y[()])
        if y == P1:
            return x
        if len(y) == 1 and sign(y) == "+":
            (m, c), = y.items()
            md, q = dict(m), {}
            for mx, cx in x.items():
                d = dict(mx)
                if any(d.get(a, 0) < e for a, e in m) or (cx / c).denominator != 1 or any(e < 0 or a.sort == "R" for a, e in mx):
                    q = None
                    break
                r = pconst(cx / c)
                for a, e in mx:
                    if e - md.get(a, 0):
                        r = pmul(r, patom(a, e - md.get(a, 0)))
                q = padd(q, r)
            if q is not None:
                return q
    a = _mk("app", (f,) + tuple(args), t.sort)
    if t.sort == "B":
        return patom(_mk("bool", (a,), "B"))
    return patom(a)


def open_msum(t, avoid=frozenset()):
    ranges, body = t.args[:-1], t.args[-1]
    used = set(body.fv) | set(avoid)
    ks = []
    for n in ranges:
        k = tm.fresh_for(n, used)
        used.add(k.id)
        ks.append(k)
    for k in reversed(ks):
        body = tm.inst(body, k)
    return ks, ranges, body


def nf_sum(t):
    k, n, body = tm.open_binder(t)
    n = norm(n)
    p = nf(body)
    return sum_poly([(k, n)], p)


def sum_poly(ranges, p):
    r = P0
    for m, c in p.items():
        r = padd(r, pscale(sum_mono(ranges, m), c))
    return r


def sum_mono(ranges, m):
    """sum over all (k,n) in ranges of monomial m -> Poly"""
    # flatten inner sums
    ids = {k.id for k, _ in ranges}
    fs = []
    ranges = list(ranges)
    indep = []
    for a, e in m:
        if not (a.fv & ids):
            indep.append((a, e))
            continue
        if a.op == "msum" and e > 0 and len(ranges) + e * (len(a.args) - 1) <= 5 and not any(n.fv & ids for n in a.args[:-1]):
            for _ in range(e):
                avoid = set()
                for b, _e in m:
                    avoid |= b.fv
                for k, _n in ranges:
                    avoid.add(k.id)
                for b, _e in fs:
                    avoid |= b.fv
                ks, ns, body = open_msum(a, avoid)
                ranges += list(zip(ks, ns))
                bp = nf(body)
                if len(bp) != 1:
                    # body changed under normalisation (e.g. new facts): distribute
                    rest = [(b, e2) for b, e2 in m if b is not a]
                    pp = pmul({tuple(sorted(rest, key=lambda x: x[0].id)): Fraction(1)}, pmul_list([bp] * 1))
                    if e == 1:
                        return sum_poly(ranges, pp)
                    raise TooBig()
                (bm, bc), = bp.items()
                if bc != 1:
                    raise TooBig()
                fs += list(bm)
            ids = {k.id for k, _ in ranges}
        else:
            fs.append((a, e))
    p = P1
    for a, e in fs:
        p = pmul(p, patom(a, e))
    r = P0
    for mm, c in p.items():
        r = padd(r, pscale(msum_flat(ranges, mm), c))
    if indep:
        r = pmul(r, {tuple(indep): Fraction(1)})
    return r


def solve_delta(z, k):
    """z = zero(q); if q = +-(k - t), t free of k and integer, return t"""
    q = nf(z.args[0])
    mk = ((k, 1),)
    c = q.get(mk)
    if c not in (1, -1):
        return None
    rest = {m: x for m, x in q.items() if m != mk}
    if any(depends(m, k) for m in rest):
        return None
    t = pscale(rest, -c)
    if not is_int_poly(t):
        return None
    return to_term(t)


def in_range(t, n):
    """0/1 poly for 0<=t<n using static knowledge"""
    g = tm.and_(tm.le(ZERO, t), tm.lt(t, n))
    p = nf(g)
    if p == P1 or not p:
        return p
    if DECIDER[0] is not None:
        d = DECIDER[0](g)
        if d is True:
            return P1
    return p


def msum_flat(ranges, m):
    if not ranges:
        return {m: Fraction(1)}
    ids = {k.id: k for k, _ in ranges}
    # delta elimination
    for a, e in m:
        if a.op == "zero" and any(i in a.fv for i in ids):
            for j, (k, n) in enumerate(ranges):
                if k.id in a.fv:
                    t = solve_delta(a, k)
                    if t is None:
                        continue
                    rest_ranges = ranges[:j] + ranges[j + 1:]
                    if any(k.id in nn.fv for _, nn in rest_ranges):
                        continue
                    rest = tuple((b, x) for b, x in m if b is not a)
                    body = tm.subst(mono_term(rest), {k: t})
                    p = pmul(in_range(t, n), nf(body))
                    return sum_poly(rest_ranges, p) if rest_ranges else p
    # probability vectors: sum_k pi(.., k, ..) = 1
    if SIMPLEX:
        for j, (k, n) in enumerate(ranges):
            dep = [(a, e) for a, e in m if k.id in a.fv]
            if len(dep) == 1 and dep[0][1] == 1:
                a = dep[0][0]
                if a.op == "app" and a.args[0] in SIMPLEX:
                    ax, nn = SIMPLEX[a.args[0]]
                    args = a.args[1:]
                    if args[ax] is k and not any(k.id in x.fv for q, x in enumerate(args) if q != ax) and norm(nn) is n:
                        rest_ranges = ranges[:j] + ranges[j + 1:]
                        rest = tuple((b, e) for b, e in m if b is not a)
                        return msum_flat(rest_ranges, rest) if rest_ranges else {rest: Fraction(1)}
    # connected components
    comps = []   # list of [set(kid), [factors]]
    out = []
    for a, e in m:
        ks = {i for i in ids if i in a.fv}
        if not ks:
            out.append((a, e))
            continue
        new = [ks, [(a, e)]]
        keep = []
        for c in comps:
            if c[0] & new[0]:
                new[0] |= c[0]
                new[1] = c[1] + new[1]
            else:
                keep.append(c)
        comps = keep + [new]
    used = set().union(*[c[0] for c in comps]) if comps else set()
    r = {tuple(out): Fraction(1)} if out else P1
    for k, n in ranges:
        if k.id not in used:
            r = pmul(r, nf(n))
    for ks, fs in comps:
        rr = [(k, n) for k, n in ranges if k.id in ks]
        r = pmul(r, msum_conn(rr, tuple(sorted(fs, key=lambda x: x[0].id))))
    return r


def msum_conn(ranges, m):
    for rule in SUM_RULES:
        p = rule(ranges, m)
        if p is not None:
            return p
    body = mono_term(m)
    nb = len(ranges)
    if nb == 1 and tm.is_num(ranges[0][1]) and ranges[0][1].args[0] <= 6:
        # concrete small range: expand
        k, n = ranges[0]
        r = P0
        for j in range(int(n.args[0])):
            r = padd(r, nf(tm.subst(body, {k: num(j)})))
        return r
    if nb > 1:
        for j, (k, n) in enumerate(ranges):
            if tm.is_num(n) and n.args[0] <= 6:
                rest = ranges[:j] + ranges[j + 1:]
                r = P0
                for v in range(int(n.args[0])):
                    r = padd(r, sum_poly(rest, nf(tm.subst(body, {k: num(v)}))))
                return r
    best = None
    perms = itertools.permutations(ranges) if nb <= 4 else [ranges]
    for perm in perms:
        fs = []
        for a, e in m:
            for j, (k, n) in enumerate(perm):
                a = tm.abst(a, k, nb - 1 - j)
            fs.append((a, e))
        b = mono_term(tuple(sorted(fs, key=lambda x: x[0].id)))
        node = _mk("msum", tuple(n for _, n in perm) + (b,), body.sort)
        if best is None or node.id < best.id:
            best = node
    return patom(best)


def nf_quant(t):
    k, n, body = tm.open_binder(t)
    n = norm(n)
    p = nf(body)
    if t.op == "exists":
        p = padd(P1, p, -1)
    r = forall_poly(k, n, p)
    if t.op == "exists":
        r = padd(P1, r, -1)
    return r


def forall_poly(k, n, p):
    if p == P1:
        return P1
    if len(p) == 1 and list(p.values())[0] == 1:
        (m, c), = p.items()
        r = P1
        for a, e in m:
            r = pmul(r, forall1(k, n, patom(a)))
        return r
    return forall1(k, n, p)


def forall1(k, n, p):
    if not any(depends(m, k) for m in p):
        # forall k<n. c   ==  c or n<=0
        if range_pos(n):
            return p
        e = nf(tm.le(n, ZERO))
        return padd(padd(p, e), pmul(p, e), -1)
    return patom(_mk("forall", (n, tm.abst(tm.as_bool(to_term(p)), k)), "B"))


def nf_prod(t):
    k, n, body = tm.open_binder(t)
    n = norm(n)
    p = nf(body)
    if tm.is_num(n) and n.args[0] <= 6:
        r = P1
        for j in range(int(n.args[0])):
            r = pmul(r, nf(tm.subst(body, {k: num(j)})))
        return r
    if p == P1:
        return P1
    if len(p) == 1:
        (m, c), = p.items()
        r = P1
        if c != 1:
            r = pmul(r, patom(_mk("app", ("pow", num(c), n), "R")))
        for a, e in m:
            if k.id in a.fv:
                at = _mk("prod", (n, tm.abst(iv_term(a), k)), a.sort if not is_iv(a) else "I")
                r = pmul(r, patom(at, e))
            else:
                r = pmul(r, patom(_mk("app", ("pow", iv_term(a) if e == 1 else mono_term(((a, e),)), n), "R")))
        return r
    return patom(_mk("prod", (n, tm.abst(to_term(p), k)), t.sort))


def nf_extremum(t):
    k, n, body = tm.open_binder(t)
    n = norm(n)
    p = nf(body)
    const = {m: c for m, c in p.items() if not depends(m, k)}
    dep = {m: c for m, c in p.items() if depends(m, k)}
    if not dep:
        return const
    if tm.is_num(n) and n.args[0] <= 4:
        f = tm.max2 if t.op == "max" else tm.min2
        r = None
        for j in range(int(n.args[0])):
            x = tm.subst(body, {k: num(j)})
            r = x if r is None else f(r, x)
        return nf(r)
    return padd(const, patom(_mk(t.op, (n, tm.abst(to_term(dep), k)), t.sort)))
