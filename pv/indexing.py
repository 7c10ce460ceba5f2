"""numpy indexing on symbolic arrays"""
from __future__ import annotations
import numpy as np
from . import terms as tm
from .terms import T, ZERO, ONE, TRUE
from .values import (EngineHook, SArr, Sym, Axis, Unsupported, SymRaise, decide, to_arr, wrap, term, nterm,
                     broadcast_axes, bidx, same_axis, SList)
from . import norm as nm
from . import values as V


def check_index(t, n, guards=()):
    """index term t into axis of length n: normalise negatives, check bounds.
    guards: list of (var, n) describing universally quantified index variables of t"""
    if t.sort != "I":
        if t.sort == "B":
            raise Unsupported("bool index")
        raise SymRaise(IndexError("only integers are valid indices"))
    if t.op == "num" and n.op == "num":
        v = int(t.args[0])
        m = int(n.args[0])
        if v < -m or v >= m:
            raise SymRaise(IndexError("index out of bounds"))
        return tm.num(v % m) if v < 0 else t
    return t


def quantify(cond, ks):
    for k, ax in reversed(ks):
        if k.id in cond.fv:
            body = cond if ax.guard is None else tm.implies(ax.guard(k), cond)
            cond = tm.bind_var("forall", ax.n, k, body)
    return cond


def bound_obligation(t_fn, axes, n):
    """forall idx over axes: 0 <= t(idx) < n (else IndexError); negative wrap if needed.
    returns mapped t_fn"""
    ks = [(tm.fresh_for(a.n, frozenset()), a) for a in distinct(axes)]
    # ensure distinct variables
    used = set()
    ks = []
    for a in axes:
        k = tm.fresh_for(a.n, used)
        used.add(k.id)
        ks.append((k, a))
    t = t_fn(*[k for k, _ in ks])
    if t.op == "num" and n.op == "num":
        v, m = int(t.args[0]), int(n.args[0])
        if v < -m or v >= m:
            raise SymRaise(IndexError("index out of bounds"))
        return t_fn if v >= 0 else (lambda *i: tm.num(v + m))
    lo = quantify(tm.le(ZERO, t), ks)
    hi = quantify(tm.lt(t, n), ks)
    if lo is TRUE and hi is TRUE:
        return t_fn
    both = tm.and_(lo, hi)
    from .values import EngineHook
    eng = EngineHook.cur
    if eng is not None and eng.known(both):
        return t_fn
    nonneg = decide(lo)
    if nonneg:
        if not decide(hi):
            raise SymRaise(IndexError("index out of bounds"))
        return t_fn
    lo2 = quantify(tm.le(tm.mul(tm.num(-1), n), t), ks)
    if not decide(tm.and_(lo2, hi)):
        raise SymRaise(IndexError("index out of bounds"))

    def wrapped(*i):
        x = t_fn(*i)
        return tm.ite(tm.lt(x, ZERO), tm.add(x, n), x)
    return wrapped


def distinct(axes):
    return list(axes)


def norm_key(a, key):
    """-> list of per-axis items: ('slice',start,stop,step)|('int',t)|('arr',SArr)|('mask',SArr over m axes)|('new',)"""
    if not isinstance(key, tuple):
        key = (key,)
    items = []
    for k in key:
        if isinstance(k, (list, tuple)):
            k = to_arr(list(k))
        elif isinstance(k, SList):
            k = k.to_arr()
        elif isinstance(k, np.ndarray):
            k = to_arr(k)
        elif hasattr(k, "to_arr") and not isinstance(k, SArr):
            k = k.to_arr()
        items.append(k)
    ncons = 0
    for k in items:
        if k is None or k is Ellipsis:
            continue
        if isinstance(k, SArr) and k.kind == "bool":
            ncons += k.ndim
        else:
            ncons += 1
    if any(k is Ellipsis for k in items):
        j = [i for i, k in enumerate(items) if k is Ellipsis][0]
        items[j:j + 1] = [slice(None)] * (a.ndim - ncons)
    else:
        items += [slice(None)] * (a.ndim - ncons)
    if ncons > a.ndim:
        raise SymRaise(IndexError("too many indices for array"))
    src = 0
    nadv = sum(1 for k in items if isinstance(k, SArr) and (k.ndim > 0 or k.kind == "bool"))
    for j, k in enumerate(items):
        if k is None:
            continue
        if nadv == 1 and isinstance(k, SArr) and k.kind == "bool" and k.ndim == 1 and all_true(a.axes[src], k):
            items[j] = slice(None)
            items.append(COPY)
            break
        src += k.ndim if isinstance(k, SArr) and k.kind == "bool" else 1
    return items


COPY = object()


def slice_bounds(s, n):
    """concrete-step slice -> (start term, length term, step int); conservative"""
    step = 1 if s.step is None else s.step
    if not isinstance(step, int) or step == 0:
        raise Unsupported("symbolic slice step")
    if s.start is None and s.stop is None:
        if step == 1:
            return ZERO, n, 1
        if step == -1:
            return tm.sub(n, ONE), n, -1
        if n.op == "num":
            st, sp, _ = s.indices(int(n.args[0]))
            return tm.num(st), tm.num(len(range(st, sp, step))), step
        raise Unsupported("strided slice of symbolic axis")
    if step != 1:
        if n.op == "num" and all(x is None or isinstance(x, int) for x in (s.start, s.stop)):
            st, sp, _ = s.indices(int(n.args[0]))
            return tm.num(st), tm.num(len(range(st, sp, step))), step
        raise Unsupported("strided slice")

    def clamp(x, default):
        if x is None:
            return default
        t = nterm(x)
        if t.op == "num" and n.op == "num":
            v, m = int(t.args[0]), int(n.args[0])
            if v < 0: v = max(0, v + m)
            return tm.num(min(v, m))
        if decide(tm.lt(t, ZERO)):
            t = tm.add(t, n)
            if decide(tm.lt(t, ZERO)):
                return ZERO
            return t
        if decide(tm.le(t, n)):
            return t
        return n
    st = clamp(s.start, ZERO)
    sp = clamp(s.stop, n)
    if decide(tm.le(st, sp)):
        return st, nm.norm(tm.sub(sp, st)), 1
    return st, ZERO, 1


def getitem(a, key):
    items = norm_key(a, key)
    if items and items[-1] is COPY:
        r = getitem(a, tuple(items[:-1]))
        return r.copy() if isinstance(r, SArr) else r
    has_adv = any(isinstance(k, SArr) and (k.ndim > 0 or k.kind == "bool") for k in items)
    if not has_adv:
        return basic(a, items)
    return advanced(a, items)


def basic(a, items):
    """ints, slices, newaxis -> view"""
    oaxes = []
    maps = []      # per source axis: function of out idx -> term
    backs = []     # per out axis: (source axis, start, step) or None for newaxis
    src = 0
    conds = []
    for k in items:
        if k is None:
            oaxes.append(Axis(ONE))
            backs.append(None)
            continue
        ax = a.axes[src]
        if isinstance(k, slice):
            if k == slice(None):
                st, ln, step = ZERO, ax.n, 1
                pos = len(oaxes)
                oaxes.append(ax)
                maps.append((lambda p: (lambda idx: idx[p]))(pos))
            else:
                if ax.guard is not None:
                    raise Unsupported("slice of masked axis")
                st, ln, step = slice_bounds(k, ax.n)
                pos = len(oaxes)
                oaxes.append(ax if (st is ZERO and ln is ax.n and step == 1) else Axis(ln))
                maps.append((lambda p, st, step: (lambda idx: tm.add(st, tm.mul(tm.num(step), idx[p]))))(pos, st, step))
            backs.append((src, st, step, oaxes[-1]))
        else:
            if ax.guard is not None:
                raise Unsupported("integer index into masked axis")
            t = term(k)
            if t.sort == "R":
                raise SymRaise(IndexError("only integers, slices are valid indices"))
            if t.sort == "B":
                raise Unsupported("scalar bool index")
            tf = bound_obligation(lambda: t, (), ax.n)
            t2 = tf()
            maps.append((lambda t2: (lambda idx: t2))(t2))
            conds.append((src, t2))
        src += 1

    def fwd(*idx):
        return tuple(m(idx) for m in maps)

    def back(*b):
        cs = [tm.eq(b[s], t) for s, t in conds]
        idx = []
        for x in backs:
            if x is None:
                idx.append(ZERO)
                continue
            s, st, step, oax = x
            if step == 1:
                i = tm.sub(b[s], st) if st is not ZERO else b[s]
                if not (st is ZERO and oax.n is a.axes[s].n):
                    cs += [tm.le(ZERO, i), tm.lt(i, oax.n)]
            elif step == -1:
                i = tm.sub(st, b[s])
            else:
                raise Unsupported("write through strided view")
            idx.append(i)
        return tm.and_(*cs), tuple(idx)
    r = SArr(oaxes, None, a.kind, view=(a, fwd, back))
    if not oaxes:
        return wrap(r.at(), a.kind)
    return r


def constant_mask(a, src, k):
    """a mask of known length whose entries are all determined is the list of selected positions"""
    ax = k.axes[0]
    if ax.guard is not None or ax.n.op != "num" or ax.n.args[0] > 8 or a.axes[src].guard is not None or a.axes[src].n.op != "num" or a.axes[src].n is not ax.n:
        return k
    sel = []
    for i in range(int(ax.n.args[0])):
        t = nm.norm(tm.as_num(k.at(tm.num(i))))
        if t.op != "num":
            return k
        if t.args[0]:
            sel.append(i)
    return to_arr(np.array(sel, dtype=int))


def all_true(ax, k):
    """a mask of the axis that selects everything"""
    m = k.axes[0]
    if ax.guard is not None or m.guard is not None or m.n is not ax.n:
        return False
    z = tm.fresh("q", "I", (ZERO, m.n))
    t = nm.norm(tm.as_num(k.at(z)))
    return t.op == "num" and t.args[0] == 1


def adv_parts(a, items):
    """common analysis for advanced indexing: returns
    (out axes, maps per source axis as fn(out idx)->term, adv axes count)"""
    # expand masks into guarded index "arrays"
    parts = []
    src = 0
    adv_axes = None
    adv_pos = None
    adv_first = None
    noncontig = False
    last_adv = None
    entries = []
    for j, k in enumerate(items):
        if k is None:
            entries.append(("new",))
            continue
        if isinstance(k, SArr) and k.kind == "bool" and k.ndim == 1:
            k = constant_mask(a, src, k)
        if isinstance(k, SArr) and k.kind == "bool":
            if k.ndim == 0:
                raise Unsupported("0-d mask")
            if k.ndim > 1:
                # mask over several axes: flattened guarded axis unsupported in general
                c = V.const_np(k)
                if c is not None and all(a.axes[src + d].concrete() and int(a.axes[src + d].n.args[0]) == c.shape[d] for d in range(k.ndim)):
                    for x in np.nonzero(c):
                        entries.append(("arr", src, to_arr(x)))
                        src += 1
                    continue
                entries.append(("nmask", src, k))
                src += k.ndim
            else:
                entries.append(("mask", src, k))
                src += 1
        elif isinstance(k, SArr) and k.ndim > 0:
            entries.append(("arr", src, k))
            src += 1
        elif isinstance(k, slice):
            entries.append(("slice", src, k))
            src += 1
        else:
            entries.append(("arr", src, to_arr(k)))
            src += 1
    if any(e[0] == "nmask" for e in entries):
        raise Unsupported("multi-dimensional boolean mask")
    advs = [i for i, e in enumerate(entries) if e[0] in ("mask", "arr")]
    contiguous = advs == list(range(advs[0], advs[-1] + 1))
    # broadcast adv index arrays
    baxes = ()
    for i in advs:
        e = entries[i]
        if e[0] == "mask":
            ax = a.axes[e[1]]
            m = e[2]
            if ax.guard is not None:
                if not same_axis(ax, m.axes[0]):
                    raise Unsupported("mask on masked axis")
                mf = m.snapshot()
                g0 = ax.guard
                max_ = Axis(ax.n, (lambda g0, mf: lambda k: tm.and_(g0(k), mf(k)))(g0, mf))
            else:
                if not (m.axes[0].guard is None):
                    raise Unsupported("masked mask")
                if m.axes[0].n is not ax.n:
                    if not decide(tm.eq(m.axes[0].n, ax.n)):
                        raise SymRaise(IndexError("boolean index did not match"))
                max_ = Axis(ax.n, m.snapshot())
            sub_axes = (max_,)
        else:
            sub_axes = e[2].axes
        baxes = tuple(broadcast_axes(baxes, sub_axes)) if baxes else tuple(sub_axes)
    baxes = list(baxes)
    # out axes
    oaxes = []
    slots = {}
    adv_start = None
    if not contiguous:
        adv_start = 0
        oaxes += baxes
    for i, e in enumerate(entries):
        if i in advs:
            if contiguous and i == advs[0]:
                adv_start = len(oaxes)
                oaxes += baxes
            continue
        if e[0] == "new":
            oaxes.append(Axis(ONE))
            continue
        ax = a.axes[e[1]]
        if e[2] == slice(None):
            slots[e[1]] = (len(oaxes), ZERO, 1)
            oaxes.append(ax)
        else:
            st, ln, step = slice_bounds(e[2], ax.n)
            slots[e[1]] = (len(oaxes), st, step)
            oaxes.append(Axis(ln))
    nb = len(baxes)
    maps = [None] * a.ndim
    for s, (p, st, step) in slots.items():
        maps[s] = (lambda p, st, step: lambda idx: idx[p] if st is ZERO and step == 1 else tm.add(st, tm.mul(tm.num(step), idx[p])))(p, st, step)
    for i in advs:
        e = entries[i]
        s = e[1]
        if e[0] == "mask":
            # guarded axis: index is the base position itself (last broadcast axis of size 1-d)
            maps[s] = (lambda idx: idx[adv_start + nb - 1])
        else:
            arr = e[2]
            f = arr.snapshot()
            aax = arr.axes
            ax = a.axes[s]
            if arr.kind != "int":
                raise SymRaise(IndexError("arrays used as indices must be of integer (or boolean) type"))
            if ax.guard is not None:
                # index into masked axis by arange over the same masked axis only
                ra = getattr(arr, "rank_of", None)
                if ra is None or not same_axis(ra, ax):
                    raise Unsupported("fancy index into masked axis")
                maps[s] = (lambda aax: lambda idx: bidx(aax, baxes, idx[adv_start:adv_start + nb])[0])(aax)
                continue
            tf = bound_obligation(f, aax, ax.n)
            maps[s] = (lambda tf, aax: lambda idx: tf(*bidx(aax, baxes, idx[adv_start:adv_start + nb])))(tf, aax)
    adv_parts.slots = {s_: (p_, st_, step_, oaxes[p_].n) for s_, (p_, st_, step_) in slots.items()}
    return oaxes, maps, entries, advs, adv_start, baxes


def advanced(a, items):
    oaxes, maps, entries, advs, adv_start, baxes = adv_parts(a, items)
    f = a.snapshot()

    def fn(*idx):
        return f(*[m(idx) for m in maps])
    return SArr(oaxes, fn, a.kind)


def setitem(a, key, value):
    if getattr(value, "_symbolic_", False) and hasattr(value, "to_arr") and not isinstance(value, SArr):
        value = value.to_arr()
    items = norm_key(a, key)
    if items and items[-1] is COPY:
        items = items[:-1]
    has_adv = any(isinstance(k, SArr) and (k.ndim > 0 or k.kind == "bool") for k in items)
    if not has_adv:
        v = basic(a, items)
        if isinstance(v, SArr) and v.view is not None:
            val = to_arr(value)
            while val.ndim > v.ndim and val.axes[0].is_one():
                val = basic(val, (0,) + (slice(None),) * (val.ndim - 1)) if val.ndim > 1 else val
            axes = broadcast_to(val.axes, v.axes)
            f = val.snapshot()
            vax = v.axes
            v.write(lambda *i: (TRUE, f(*bidx(val.axes, vax, i))))
            return
        # scalar element write
        ts = []
        src = 0
        for k in items:
            if k is None:
                continue
            t = term(k)
            ts.append(bound_obligation(lambda t=t: t, (), a.axes[src].n)())
            src += 1
        val = nterm_or_bool(value)
        a.write(lambda *i: (tm.and_(*[tm.eq(x, y) for x, y in zip(i, ts)]), val))
        return
    # advanced assignment
    if len(items) == 1 and isinstance(items[0], SArr) and items[0].kind == "bool" and items[0].ndim == a.ndim and a.ndim > 1:
        m = items[0]
        mf = m.snapshot()
        val = to_arr(value)
        if val.ndim != 0:
            raise Unsupported("array assignment through n-d mask")
        v = val.at()
        a.write(lambda *i: (mf(*i), v))
        return
    oaxes, maps, entries, advs, adv_start, baxes = adv_parts(a, items)
    val = to_arr(value)
    broadcast_to(val.axes, oaxes)
    vf = val.snapshot()
    nb = len(baxes)
    # invert: given source index b, find output index idx with maps(idx)==b.
    # supported: every broadcast axis is determined by one source axis directly
    det = {}
    perms = {}      # broadcast axis -> (source axis, sorted row, its length, offset, sign, index variables, first axis)
    ranks = {}      # broadcast axis -> (source axis, k, distinct values in increasing order)
    for i in advs:
        e = entries[i]
        if e[0] == "mask":
            det.setdefault(nb - 1, e[1])
        else:
            arr = e[2]
            if a.axes[e[1]].guard is not None and getattr(arr, "rank_of", None) is not None and arr.ndim == 1:
                det.setdefault(nb - 1, e[1])
                continue
            ks = []
            used = set()
            for ax in arr.axes:
                k = tm.fresh_for(ax.n, used)
                used.add(k.id)
                ks.append(k)
            t = arr.at(*ks)
            for p, k in enumerate(ks):
                if t is k:
                    det.setdefault(nb - arr.ndim + p, e[1])
                elif t.op == "app" and t.args[0] == "argsort":
                    # a permutation of the positions: inverted by the rank
                    lo = nm.norm(tm.subst(t.args[3], {k: ZERO}))
                    st = nm.norm(tm.sub(tm.subst(t.args[3], {k: ONE}), lo))
                    if st in (ONE, tm.num(-1)) and nm.norm(tm.sub(t.args[3], tm.add(lo, tm.mul(st, k)))) is ZERO and all(k.id not in x.fv for x in (t.args[1], t.args[2], lo)):
                        perms.setdefault(nb - arr.ndim + p, (e[1], t.args[1], t.args[2], lo, st, ks, nb - arr.ndim))
                elif t.op == "app" and t.args[0] == "uniq" and t.args[2] is k and len(ks) == 1 and k.id not in t.args[1].fv:
                    ranks.setdefault(nb - arr.ndim + p, (e[1], t.args[1], t.sort))
    ranks = {p: r for p, r in ranks.items() if p not in det}
    perms = {p: r for p, r in perms.items() if p not in det and p not in ranks and val.ndim > 0
             and all(q == p or r[6] + j in det for j, q in enumerate(range(r[6], nb)))}
    undetermined = [p for p in range(nb) if p not in det and p not in ranks and p not in perms and not baxes[p].is_one()]
    smap = dict(adv_parts.slots)
    if undetermined:
        # duplicates possible: supported only for scalar constant values (existential condition)
        if val.ndim != 0:
            raise Unsupported("scatter with undetermined source index")

    def cv(*b):
        idx = [ZERO] * len(oaxes)
        conds = []
        for p, s in det.items():
            idx[adv_start + p] = b[s]
        for p, (s, lam, so) in ranks.items():
            m = baxes[p].n
            idx[adv_start + p] = tm.Sum(m, lambda j: tm.iv(tm.lt(tm.app("uniq", lam, j, sort=so), b[s])))
            conds.append(tm.Exists(m, lambda j: tm.eq(tm.app("uniq", lam, j, sort=so), b[s])))
        ranked = {s for s, _, _ in ranks.values()}
        for p, (s, row, m, lo, st, ks, o) in perms.items():
            sub = {k: idx[adv_start + o + j] for j, k in enumerate(ks) if o + j != p}
            row, m, lo = [tm.subst(x, sub) for x in (row, m, lo)]
            j = tm.mul(st, tm.sub(tm.app("argrank", row, m, b[s], sort="I"), lo))
            idx[adv_start + p] = j
            if nm.norm(tm.sub(lo, ZERO if st is ONE else tm.sub(m, ONE))) is not ZERO:
                conds.append(tm.le(ZERO, j))
            conds.append(tm.lt(j, baxes[p].n))
            ranked.add(s)
        for s, (p, st, step, ln) in smap.items():
            if st is ZERO and step == 1 and ln is a.axes[s].n:
                idx[p] = b[s]
            else:
                if step != 1:
                    raise Unsupported("strided scatter")
                i = tm.sub(b[s], st)
                idx[p] = i
                conds += [tm.le(ZERO, i), tm.lt(i, ln)]
        if undetermined:
            vs = []
            used = set(x.id for x in b)
            for p in undetermined:
                k = tm.fresh("w", "I", (ZERO, baxes[p].n))
                vs.append((p, k))
                idx[adv_start + p] = k
            cond = []
            for i in advs:
                s = entries[i][1]
                cond.append(tm.eq(maps[s](tuple(idx)), b[s]))
            for p, ax in enumerate(baxes):
                if ax.guard is not None:
                    cond.append(ax.guard(idx[adv_start + p]))
            c = tm.and_(*cond)
            if len(vs) == 1 and len(cond) == 1 and len(advs) == 1:
                d = strided(c, vs[0][1], baxes[vs[0][0]].n, maps[entries[advs[0]][1]](tuple(idx)), b[entries[advs[0]][1]])
                if d is not None:
                    return tm.and_(d, *conds), vf()
            for p, k in vs:
                c = tm.bind_var("exists", baxes[p].n, k, c)
            return tm.and_(c, *conds), vf()
        for p, ax in enumerate(baxes):
            if ax.guard is not None:
                conds.append(ax.guard(idx[adv_start + p]))
            elif not ax.is_one() and p in det and ax.n is not a.axes[det[p]].n:
                conds += [tm.lt(idx[adv_start + p], ax.n)]
        for i in advs:
            s = entries[i][1]
            if s in ranked:
                continue
            m = maps[s](tuple(idx))
            if m is not b[s]:
                conds.append(tm.eq(m, b[s]))
        return tm.and_(*conds), vf(*bidx(val.axes, oaxes, tuple(idx)))
    a.write(cv)


def strided(c, k, n, t, x):
    """exists k<n: t(k) == x, for t = k*step + offset with step >= 1"""
    from .shim_np import divmod_term
    off = tm.subst(t, {k: ZERO})
    step = nm.norm(tm.sub(tm.subst(t, {k: ONE}), off))
    if k.id in off.fv or k.id in step.fv:
        return None
    if nm.norm(tm.sub(t, tm.add(off, tm.mul(k, step)))) is not ZERO or not EngineHook.cur.known(tm.le(ONE, step)):
        return None
    q, r = divmod_term(tm.sub(x, off), step)
    return tm.and_(tm.eq(r, ZERO), tm.le(ZERO, q), tm.lt(q, n))


def nterm_or_bool(v):
    return term(v)


def broadcast_to(src, dst):
    if len(src) > len(dst):
        extra = src[:len(src) - len(dst)]
        if not all(x.is_one() for x in extra):
            raise SymRaise(ValueError("could not broadcast input array"))
        raise Unsupported("broadcast with extra axes")
    for s, d in zip(src[::-1], dst[::-1]):
        if s.is_one() or same_axis(s, d):
            continue
        if s.guard is None and d.guard is None:
            if decide(tm.eq(s.n, d.n)):
                continue
            if decide(tm.eq(s.n, ONE)):
                raise Unsupported("dynamic broadcast")
            raise SymRaise(ValueError("could not broadcast input array"))
        raise Unsupported("assignment between differently masked axes")
    return dst
