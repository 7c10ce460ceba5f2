"""Context-free policies: batched accounting of any history, selection of the best actions."""
from .common import *
from .contracts import CONTRACTS
from obp.policy import EpsilonGreedy, Random, BernoulliTS
from obp.policy.contextfree import production_prior_for_bts

I = lambda t: Sym(t, "int")


def find_sorts(t, acc):
    if t.op == "app" and t.args[0] == "argsort":
        acc.append(t)
    for a in t.args:
        if isinstance(a, T):
            find_sorts(a, acc)
    return acc


def sort_facts(rt, *ts):
    """argsort is an ordering permutation: its defining facts at the index terms given"""
    fs = []
    for t in ts:
        find_sorts(nm.norm(t), fs)
    fs = list(dict.fromkeys(fs))
    for a in fs:
        for b in fs:
            if a is not b and a.args[1] is b.args[1]:
                row, n = a.args[1], a.args[2]
                v = lambda x: tm.as_num(tm.inst(row.args[1], x))
                i, j = a.args[3], b.args[3]
                rt.assume(implies(and_(le(ZERO, i), lt(i, j), lt(j, n)), and_(le(v(a), v(b)), ne(a, b))))


def position_of(rt, sel, L, b):
    """a candidate place of action b in the selection sel (read off the form of the code's result)"""
    k = tm.var("pos_probe", "I")
    t = nm.norm(sel.at(k))
    if not (t.op == "app" and t.args[0] == "argsort"):
        return []
    row, n, e = t.args[1], t.args[2], t.args[3]
    at = lambda x: nm.norm(tm.subst(e, {k: x}))
    c0, c1 = at(ZERO), at(ONE)
    co = nm.norm(c1 - c0)
    inv = app("argsort_inv", row, n, b, sort="I")
    rt.assume(and_(le(ZERO, inv), lt(inv, n), eq(app("argsort", row, n, inv, sort="I"), b)))
    last = at(L - ONE)
    v = lambda x: tm.as_num(tm.inst(row.args[1], x))
    rt.assume(implies(and_(le(inv, last), lt(last, n)), le(v(b), v(app("argsort", row, n, last, sort="I")))))
    rt.assume(implies(and_(le(ZERO, last), le(last, inv)), le(v(app("argsort", row, n, last, sort="I")), v(b))))
    return [nm.norm((inv - c0) * co)]


def check_top(rt, sel, v, A, L, what="selection"):
    """sel lists the L best of A actions under the score v, best first"""
    if rt.concrete:
        s = np.asarray(rt.mat(sel)).astype(int)
        n, l = int(tm.ev(A, rt.env)), int(tm.ev(L, rt.env))
        sc = np.array([float(tm.ev(v(num(a)), rt.env)) for a in range(n)])
        rt.check(f"{what}: number of actions", s.shape == (l,))
        rt.check(f"{what}: distinct actions", len(set(s)) == l and bool(np.all((s >= 0) & (s < n))))
        rest = [sc[a] for a in range(n) if a not in set(s)]
        tol = 1e-9 * (1 + np.abs(sc).max())
        rt.check(f"{what}: best first", bool(np.all(np.diff(sc[s]) <= tol)))
        rt.check(f"{what}: nothing better left out", not rest or max(rest) <= sc[s].min() + tol)
        return
    sel = rt.arr(sel)
    rt.check(f"{what}: one dimension", sel.ndim == 1)
    rt.check(f"{what}: number of actions", eq(sel.axes[0].length(), L))
    (k,), (m,) = rt.each(L), rt.each(L)
    rt.check(f"{what}: valid actions", and_(le(ZERO, sel.at(k)), lt(sel.at(k), A)))
    sort_facts(rt, sel.at(k), sel.at(m))
    rt.check(f"{what}: best first", implies(lt(k, m), le(v(sel.at(m)), v(sel.at(k)))))
    rt.check(f"{what}: distinct actions", implies(lt(k, m), ne(sel.at(m), sel.at(k))))
    (b,) = rt.each(A)
    for w in position_of(rt, sel, L, b):
        sort_facts(rt, sel.at(w), sel.at(L - ONE))
        rt.check(f"{what}: nothing better left out", or_(and_(le(ZERO, w), lt(w, L), eq(sel.at(w), b)), le(v(b), v(sel.at(L - ONE)))))
        return
    rt.check(f"{what}: nothing better left out", or_(Exists(L, lambda k: eq(sel.at(k), b)), le(v(b), v(sel.at(L - ONE)))))


def size(D):
    A = D.dim("A", 2, 5)
    L = D.dim("L", 1, 4)
    D.hyp(le(L, A))
    return A, L, D.int("B", lo=1, gen=lambda r, e: r.randint(1, 3)), D.int("seed", lo=0, gen=lambda r, e: r.randint(0, 1000))


MAKE = {
    EpsilonGreedy: lambda D: dict(epsilon=D.real("eps", lo=0, hi=1, gen=lambda r, e: r.choice([0.0, 0.3, 0.7, 1.0]))),
    Random: lambda D: {},
    BernoulliTS: lambda D: {},
}


def counts(D, A, pre=""):
    ac = D.array(pre + "ac", (A,), "int", lo=0)
    return ac, D.array(pre + "rc", (A,), lo=0)


def u_update(cls):
    """history invariant: the temporary counts are those of the whole history h_0..h_{t-1},
    the counts used for selection those of its longest prefix of complete batches (length c)"""
    def build(D):
        A, L, B, seed = size(D)
        kw = MAKE[cls](D)
        t, c = D.int("t", lo=0, gen=lambda r, e: r.randint(0, 7)), D.int("c", lo=0, gen=lambda r, e: (e["t"] // e["B"]) * e["B"])
        D.hyp(le(term(c), term(t)))
        h = D.array("h", (term(t),), "int", lo=0, hiT=A)
        hr = D.array("hr", (term(t),))
        a, x = D.int("a", lo=0, hiT=A, gen=lambda r, e: r.randint(0, int(e["A"]) - 1)), D.real("x")

        def body(rt):
            T_, C, a_, x_ = term(t), term(c), term(a), term(x)
            cnt = lambda m: SArr((A,), lambda b: Sum(m, lambda i: iv(eq(h.at(i), b))), "int")
            rew = lambda m: SArr((A,), lambda b: Sum(m, lambda i: iv(eq(h.at(i), b)) * hr.at(i)))
            p = rt.new(cls, n_actions=I(A), len_list=I(L), batch_size=B, random_state=seed, **kw)
            rt.set(p, n_trial=t, action_counts_temp=cnt(T_), reward_counts_temp=rew(T_), action_counts=cnt(C), reward_counts=rew(C))
            rt.call(p.update_params, action=a, reward=x)
            rt.check_eq("number of trials", rt.get(p, "n_trial"), I(T_ + ONE))
            now = lambda m: SArr((A,), lambda b: Sum(m, lambda i: iv(eq(h.at(i), b))) + iv(eq(a_, b)), "int")
            nowr = lambda m: SArr((A,), lambda b: Sum(m, lambda i: iv(eq(h.at(i), b)) * hr.at(i)) + iv(eq(a_, b)) * x_)
            rt.check_eq("pending counts", rt.get(p, "action_counts_temp"), now(T_))
            rt.check_eq("pending rewards", rt.get(p, "reward_counts_temp"), nowr(T_))
            full = rt.decide(eq(app("mod", T_ + ONE, term(B), sort="I"), ZERO))
            rt.check_eq("counts", rt.get(p, "action_counts"), now(T_) if full else cnt(C))
            rt.check_eq("rewards", rt.get(p, "reward_counts"), nowr(T_) if full else rew(C))
            # the two sets of counts stay separate objects
            rt.call(p.update_params, action=a, reward=x)
            if not rt.decide(eq(app("mod", T_ + num(2), term(B), sort="I"), ZERO)):
                rt.check_eq("counts are not aliased", rt.get(p, "action_counts"), now(T_) if full else cnt(C))
                rt.check_eq("rewards are not aliased", rt.get(p, "reward_counts"), nowr(T_) if full else rew(C))
        return body
    return Unit(f"{cls.__name__}: accounting of any history", build, samples=30)


def u_init(cls):
    def build(D):
        A, L, B, seed = size(D)
        kw = MAKE[cls](D)
        ac, rc = counts(D, A)
        tc, tr = counts(D, A, "t")
        t = D.int("t", lo=0, gen=lambda r, e: r.randint(0, 7))

        def body(rt):
            p = rt.new(cls, n_actions=I(A), len_list=I(L), batch_size=B, random_state=seed, **kw)
            z, zf = SArr((A,), lambda i: ZERO, "int"), SArr((A,), lambda i: ZERO)

            def fresh(when):
                rt.check_eq(f"{when}: number of trials", rt.get(p, "n_trial"), 0)
                for k, w in (("action_counts", z), ("action_counts_temp", z), ("reward_counts", zf), ("reward_counts_temp", zf)):
                    rt.check_eq(f"{when}: {k}", rt.get(p, k), w)
            fresh("constructed")
            rt.call(p.select_action)
            rt.set(p, n_trial=t, action_counts=ac, reward_counts=rc, action_counts_temp=tc, reward_counts_temp=tr)
            rt.call(p.initialize)
            fresh("initialised")
            q = rt.new(cls, n_actions=I(A), len_list=I(L), batch_size=B, random_state=seed, **kw)
            rt.check_eq("initialised: generator restarted", rt.call(p.select_action), rt.call(q.select_action))
        return body
    return Unit(f"{cls.__name__}: initial state", build, samples=15)


def u_egreedy(cls):
    def build(D):
        A, L, B, seed = size(D)
        kw = MAKE[cls](D)
        ac, rc = counts(D, A)
        tc, tr = counts(D, A, "t")

        def body(rt):
            p = rt.new(cls, n_actions=I(A), len_list=I(L), batch_size=B, random_state=seed, **kw)
            rt.set(p, action_counts=ac, reward_counts=rc, action_counts_temp=tc, reward_counts_temp=tr)
            r = rt.rng(seed)
            u = r.rand()
            eps = term(kw["epsilon"]) if kw else ONE
            sel = rt.call(p.select_action)
            greedy = and_(lt(eps, term(u)), Forall(A, lambda a: lt(ZERO, ac.at(a))))
            if rt.decide(greedy):
                check_top(rt, sel, lambda a: rc.at(a) / ac.at(a), A, L)
            else:
                rt.check_eq("uniformly random slate without repetition", sel, r.choice(I(A), size=I(L), replace=False))
            for k, v in (("action_counts", ac), ("reward_counts", rc), ("action_counts_temp", tc), ("reward_counts_temp", tr)):
                rt.check_eq(f"selection leaves {k}", rt.get(p, k), v)
        return body
    return Unit(f"{cls.__name__}: selection", build, samples=40)


def ts_inputs(D, prior):
    A, L, B, seed = size(D)
    ac = D.array("ac", (A,), "int", lo=0)
    rc = D.array("rc", (A,), "int", lo=0, hiT=None, gen=lambda rng, env, sh, style: np.zeros(sh, int) + rng.randint(0, 2, size=sh) * 0)
    al = D.array("al", (A,), lo=0, lo_strict=True) if prior else None
    be = D.array("be", (A,), lo=0, lo_strict=True) if prior else None
    D.hyp(Forall(A, lambda a: le(rc.at(a), ac.at(a))))
    kw = dict(n_actions=I(A), len_list=I(L), batch_size=B, random_state=seed, alpha=al, beta=be)
    pa = SArr((A,), lambda a: rc.at(a) + (al.at(a) if prior else ONE))
    pb = SArr((A,), lambda a: ac.at(a) - rc.at(a) + (be.at(a) if prior else ONE))
    return A, L, seed, ac, rc, kw, pa, pb


def u_ts(prior):
    def build(D):
        A, L, seed, ac, rc, kw, pa, pb = ts_inputs(D, prior)
        tc, tr = counts(D, A, "t")

        def body(rt):
            p = rt.new(BernoulliTS, **kw)
            rt.set(p, action_counts=ac, reward_counts=rc, action_counts_temp=tc, reward_counts_temp=tr)
            v = rt.arr(rt.rng(seed).beta(a=pa, b=pb))
            check_top(rt, rt.call(p.select_action), v.at, A, L)
            rt.check_eq("selection leaves action_counts", rt.get(p, "action_counts"), ac)
            rt.check_eq("selection leaves reward_counts", rt.get(p, "reward_counts"), rc)
        return body
    return Unit(f"BernoulliTS: selection with {'given' if prior else 'uniform'} prior", build, samples=30)


def u_ts_dist():
    def build(D):
        A, L, seed, ac, rc, kw, pa, pb = ts_inputs(D, True)
        S = D.dim("S", 1, 4)
        n = D.dim("n", 1, 3)

        def body(rt):
            p, q = rt.new(BernoulliTS, **kw), rt.new(BernoulliTS, **kw)
            for o in (p, q):
                rt.set(o, action_counts=ac, reward_counts=rc)
            if rt.concrete:
                sel = [rt.arr(rt.call(q.select_action)) for _ in range(int(tm.ev(S, rt.env)))]
                freq = lambda a, l: sum((iv(eq(s.at(l), a)) for s in sel), ZERO) / S
            else:
                v = rt.replicate(seed, I(S), lambda r: r.beta(a=pa, b=pb))
                order = rt.arr(rt.np(np.argsort, v, axis=1))
                freq = lambda a, l: Sum(S, lambda s: iv(eq(order.at(s, A - ONE - l), a))) / S
            d = rt.call(p.compute_batch_action_dist, n_rounds=I(n), n_sim=I(S))
            rt.check_eq("action distribution", d, SArr((n, A, L), lambda i, a, l: freq(a, l)))
            t = rt.arr(d)
            rt.check("every position has a probability distribution", Forall(n, lambda i: Forall(L, lambda l: eq(Sum(A, lambda a: t.at(i, a, l)), ONE))))
        return body
    return Unit("BernoulliTS: simulated action distribution", build, samples=25)


def u_random_dist():
    def build(D):
        A, L, B, seed = size(D)
        n = D.dim("n", 1, 4)

        def body(rt):
            p = rt.new(Random, n_actions=I(A), len_list=I(L), batch_size=B, random_state=seed)
            rt.check_eq("uniform", rt.call(p.compute_batch_action_dist, n_rounds=I(n)), SArr((n, A, L), lambda i, a, l: ONE / A))
        return body
    return Unit("Random: action distribution", build)


def u_prior():
    def build(D):
        def body(rt):
            for camp in ("all", "men", "women"):
                pr = production_prior_for_bts[camp]
                p = rt.new(BernoulliTS, n_actions=len(pr["alpha"]), is_zozotown_prior=True, campaign=camp, random_state=1)
                for k in ("alpha", "beta"):
                    got = rt.get(p, k)
                    rt.check(f"{camp}: production {k}", list(np.asarray(getattr(got, "a", got), float)) == [float(v) for v in pr[k]])
            rt.check("campaign is required", rt.outcome(lambda: rt.new(BernoulliTS, n_actions=80, is_zozotown_prior=True)).raised(Exception))
        return body
    return Unit("BernoulliTS: production prior", build, samples=1)


def u_ctor(cls):
    def build(D):
        A = D.int("A", gen=lambda r, e: r.randint(0, 4))
        L = D.int("L", gen=lambda r, e: r.randint(-1, 5))
        B = D.int("B", gen=lambda r, e: r.randint(-1, 2))

        def body(rt):
            o = rt.outcome(lambda: rt.new(cls, n_actions=A, len_list=L, batch_size=B))
            bad = or_(lt(term(A), num(2)), lt(term(L), ONE), lt(term(A), term(L)), lt(term(B), ONE))
            rt.check("range of the sizes", o.raised(ValueError) if rt.decide(bad) else o.returned)
            for kw in (dict(n_actions="2"), dict(n_actions=2.0), dict(n_actions=2, len_list=1.0), dict(n_actions=2, batch_size=None)):
                rt.check("type of the sizes", rt.outcome(lambda: rt.new(cls, **kw)).raised(TypeError))
            if cls is EpsilonGreedy:
                e = D_eps
                o = rt.outcome(lambda: rt.new(cls, n_actions=2, epsilon=e))
                rt.check("range of epsilon", o.raised(ValueError) if rt.decide(or_(lt(term(e), ZERO), lt(ONE, term(e)))) else o.returned)
                rt.check("type of epsilon", rt.outcome(lambda: rt.new(cls, n_actions=2, epsilon="0.5")).raised(TypeError))
        D_eps = D.real("eps", gen=lambda r, e: r.choice([-0.1, 0.0, 0.5, 1.0, 1.5]))
        return body
    return Unit(f"{cls.__name__}: constructor validation", build, samples=25)


def units():
    us = []
    for c in (EpsilonGreedy, Random, BernoulliTS):
        us += [u_update(c), u_init(c), u_ctor(c)]
    us += [u_egreedy(EpsilonGreedy), u_egreedy(Random), u_ts(True), u_ts(False), u_ts_dist(), u_random_dist(), u_prior()]
    return us
