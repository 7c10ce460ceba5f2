"""Synthetic slate data: rewards, policies, propensities and ground truth fit together."""
import itertools
from .common import *
from .contracts import CONTRACTS, VALIDATION
from .p12 import soft, sig
from .p16 import sigf, tn_ab
from pv.cex import expand
from pv.shim_misc import UFun
from scipy.stats import truncnorm
import obp.dataset.synthetic_slate as S
from obp.dataset import SyntheticSlateBanditDataset

I = lambda t: Sym(tm.lift(t), "int")
STRUCT = ("independent", "standard_additive", "cascade_additive", "standard_decay", "cascade_decay")
SIG = ("obp.utils:sigmoid",)
SOFT = ("obp.utils:softmax",)


def decay(kind, t):
    return exp(ZERO - t) if kind == "exponential" else ONE / (t + ONE)


def same_const(x, *cs):
    """x is the constant, evaluated or not"""
    return or_(*[eq(x, c) for c in cs])


def u_decay(kind):
    f = getattr(S, f"{kind}_decay_function")

    def build(D):
        n = D.dim("n", 1, 4)
        x = D.array("x", (n,), "int", gen=lambda rng, env, sh, style: rng.randint(0, 6, size=sh))

        def body(rt):
            rt.check_eq("decay", rt.call(f, x), SArr((n,), lambda i: decay(kind, x.at(i))))
            for bad in (None, 1, [1, 2]):
                rt.check("not an array", rt.outcome(lambda: rt.call(f, bad)).raised(ValueError))
            inputs_unchanged(rt, x)
        return body
    return Unit(f"{kind} decay", build, samples=20)


def u_matrix(structure, kind, L):
    def build(D):
        A = D.dim("A", max(L, 2), L + 2)
        seed = D.int("seed", lo=0, gen=lambda r, e: r.randint(0, 1000))

        def body(rt):
            ds = rt.new(SyntheticSlateBanditDataset, n_unique_action=I(A), len_list=L, reward_structure=structure, decay_function=kind, random_state=seed)
            W = rt.get(ds, "action_interaction_weight_matrix")
            if "additive" in structure:
                g = rt.arr(rt.rng(seed).normal(scale=5, size=(I(A), I(A))))
                rt.check_eq("symmetric normal interactions", W, SArr((A, A), lambda i, j: ite(le(j, i), g.at(i, j), g.at(j, i))))
                w = rt.arr(W)
                for i in rt.each(A):
                    for j in rt.each(A):
                        rt.check("symmetric", eq(w.at(i, j), w.at(j, i)))
            else:
                def want(i, j, e):
                    d = abs(i - j)
                    if structure == "independent" or d == 0 or structure == "cascade_decay" and i > j:
                        return ZERO
                    return ZERO - (e(num(-d)) if kind == "exponential" else ONE / num(d + 1))
                w = rt.arr(W)
                for i in range(L):
                    for j in range(L):
                        rt.check(f"effect of slot {i} on slot {j}", same_const(w.at(num(i), num(j)), want(i, j, exp), want(i, j, lambda t: app("exp", t))))
            rt.check_eq("one-hot action contexts", rt.get(ds, "action_context"), SArr((A, A), lambda i, j: iv(eq(i, j)), "int"))
        return body
    return Unit(f"interactions of {structure}" + ("" if "additive" in structure else f", {kind}, {L} slots"), build, samples=15)


def u_behavior():
    def build(D):
        n, A, d, da = D.dim("n", 1, 4), D.dim("A", 1, 4), D.dim("d", 1, 3), D.dim("da", 1, 3)
        x, ac = D.array("x", (n, d)), D.array("ac", (A, da))
        seed = D.int("seed", lo=0, gen=lambda r, e: r.randint(0, 1000))
        tau = D.real("tau", lo=0, lo_strict=True, gen=lambda r, e: r.choice([0.5, 1.0, 2.0]))

        def body(rt):
            out = rt.call(S.linear_behavior_policy_logit, context=x, action_context=ac, random_state=seed, tau=tau)
            r = rt.rng(seed)
            c, b = rt.arr(r.uniform(size=I(d))), rt.arr(r.uniform(size=I(da)))
            rt.check_eq("logits", out, SArr((n, A), lambda i, a: (Sum(d, lambda j: x.at(i, j) * c.at(j)) + Sum(da, lambda j: ac.at(a, j) * b.at(j))) / term(tau)))
            bad = lambda **k: rt.outcome(lambda: rt.call(S.linear_behavior_policy_logit, **dict(dict(context=x, action_context=ac), **k)))
            rt.check("negative temperature", bad(tau=-1.0).raised(ValueError))
            rt.check("temperature type", bad(tau="1").raised(TypeError))
            rt.check("context", bad(context=None).raised(ValueError))
            rt.check("action context", bad(action_context="x").raised(ValueError))
            inputs_unchanged(rt, x, ac)
        return body
    return Unit("linear behaviour logits", build, samples=20)


def lgt(rt, t):
    return app("logit", t)


def slot_reward(rt, structure, binary, L, base, W, a):
    """-> k -> expected reward of slot k; base(action): base reward in this round, a(k): action of slot k"""
    g = (lambda t: lgt(rt, t)) if binary else (lambda t: t)

    def q(k):
        t = g(base(a(k)))
        for j in range(L):
            if j == k or "cascade" in structure and j > k or structure == "independent":
                continue
            t = t + (W(a(k), a(j)) if "additive" in structure else g(base(a(j))) * W(num(j), num(k)))
        return sigf(rt, t) if binary else max2(t, ZERO)
    return q


def u_reward(structure, binary, L, enum):
    def build(D):
        n, A, d = D.dim("n", 1, 4), D.dim("A", 2, 4), D.dim("d", 1, 2)
        x, ac = D.array("x", (n, d)), D.array("ac", (A, D.dim("da", 1, 2)))
        m = D.dim("m", 1, 3) if enum else n
        act = D.array("act", (m * num(L),), "int", lo=0, hiT=A)
        w = A if "additive" in structure else num(L)
        W = D.array("W", (w, w))
        seed = D.int("seed", lo=0, gen=lambda r, e: r.randint(0, 1000))
        f = UFun(1, binary)

        def body(rt):
            out = rt.call(S.action_interaction_reward_function, context=x, action_context=ac, action=act, base_reward_function=f, reward_type="binary" if binary else "continuous",
                          reward_structure=structure, action_interaction_weight_matrix=W, len_list=L, is_enumerated=enum, random_state=seed)
            F = rt.arr(rt.call(f, context=x, action_context=ac, random_state=seed))
            o = rt.arr(out)
            rows = n * m if enum else n
            rt.check("shape", and_(eq(o.axes[0].n, rows), eq(o.axes[1].n, num(L))))
            for i in rt.each(n):
                for s in rt.each(m) if enum else [ZERO]:
                    row = i * m + s if enum else i
                    src = s if enum else i
                    q = slot_reward(rt, structure, binary, L, lambda b: F.at(i, b), W.at, lambda k: act.at(src * num(L) + num(k)))
                    for k in range(L):
                        rt.check(f"expected reward of slot {k}", eq(o.at(row, num(k)), q(k)))
            inputs_unchanged(rt, x, ac, act, W)
        return body
    return Unit(f"{structure} rewards, {'binary' if binary else 'continuous'}, {L} slots{', all slates' if enum else ''}", build, samples=12, contracts=SIG, needs=SIG if binary else (), tol=1e-6)


# ---- slate policies: Plackett-Luce over the logits (independent slots when factorizable)

def slates(A, L, fact):
    return list(itertools.product(range(A), repeat=L)) if fact else list(itertools.permutations(range(A), L))


def slot_prob(rt, lg, A, prev, a, fact):
    """probability of action a at a slot, given the actions before it"""
    rem = list(range(A)) if fact else [b for b in range(A) if b not in prev]
    m = ZERO
    if rt.concrete:     # shifted against overflow
        m = num(max(float(tm.ev(lg(num(b)), rt.env)) for b in rem))
    e = [app("exp", lg(num(b)) - m) for b in rem]
    return e[rem.index(a)] / sum(e[1:], e[0])


def prefix_prob(rt, lg, A, seq, fact):
    p = ONE
    for k, a in enumerate(seq):
        p = p * slot_prob(rt, lg, A, seq[:k], a, fact)
    return p


def marginal(rt, lg, A, L, k, a, fact):
    """probability of action a at slot k"""
    if fact:
        return slot_prob(rt, lg, A, (), a, True)
    return sum((prefix_prob(rt, lg, A, s, False) for s in itertools.permutations(range(A), k + 1) if s[k] == a), ZERO)


def logits(D, n, A, name="lg"):
    return D.array(name, (num(n), num(A)), gen=lambda rng, env, sh, style: rng.randn(*sh) * {"big": 8, "edge": 4}.get(style, 1))


def draws(rt, r, lg, n, A, L, fact):
    """the slates drawn one slot after the other"""
    out = []
    for i in range(n):
        seq = []
        for k in range(L):
            rem = np.array([b for b in range(A) if fact or b not in seq])
            f = [slot_prob(rt, lambda b: lg(num(i), b), A, tuple(seq), int(b), fact) for b in rem]
            p = np.array([float(tm.ev(t, rt.env)) for t in f]) if rt.concrete else SArr((num(len(f)),), lambda j, f=f: pick_term(f, j))
            if rt.concrete:
                p = p / p.sum()
            seq.append(int(rt.mat(r.choice(rem, p=p)) if rt.concrete else r.choice(rem, p=p)))
        out.append(tuple(seq))
    return out


def pick_term(f, j):
    if j.op == "num":
        return f[int(j.args[0])]
    t = f[-1]
    for k in range(len(f) - 2, -1, -1):
        t = ite(eq(j, num(k)), f[k], t)
    return t


def flat(n, L, f):
    """array over (round, slot) from f(i, k)"""
    fs = [f(i, k) for i in range(n) for k in range(L)]
    return SArr((num(n * L),), lambda j: pick_term(fs, j))


def check_flat(rt, name, o, n, L, f):
    o = rt.arr(o)
    rt.check(f"{name}: shape", o.ndim == 1 and rt.decide(eq(o.axes[0].n, num(n * L))))
    for i in range(n):
        for k in range(L):
            rt.check(f"{name}, round {i}, slot {k}", eq(o.at(num(i * L + k)), f(i, k)))


def dataset(rt, A, L, seed=1, **kw):
    return rt.new(SyntheticSlateBanditDataset, n_unique_action=A, len_list=L, random_state=seed, **kw)


def u_sample(n, A, L, fact, bf, item):
    def build(D):
        lg = logits(D, n, A)
        seed = D.int("seed", lo=0, gen=lambda r, e: r.randint(0, 1000))

        def body(rt):
            ds = dataset(rt, A, L, seed, is_factorizable=fact, behavior_policy_function=UFun(2, False) if bf and not rt.concrete else (UFun(2, False).materialize(rt) if bf else None))
            at = lg.at if bf else (lambda i, b: num(0.25))
            arg = lg if bf else (SArr((num(n), num(A)), at) if not rt.concrete else np.full((n, A), 0.25))
            o = rt.call(ds.sample_action_and_obtain_pscore, behavior_policy_logit_=arg, n_rounds=n, return_pscore_item_position=item)
            act = draws(rt, rt.rng(seed), at, n, A, L, fact)
            row = lambda i: (lambda b: at(num(i), b))
            check_flat(rt, "actions are drawn slot by slot from the policy", o[0], n, L, lambda i, k: num(act[i][k]))
            check_flat(rt, "cascade propensities", o[1], n, L, lambda i, k: prefix_prob(rt, row(i), A, act[i][:k + 1], fact))
            check_flat(rt, "slate propensities", o[2], n, L, lambda i, k: prefix_prob(rt, row(i), A, act[i], fact))
            if item and not bf:
                o3 = rt.arr(o[3])
                for j in range(n * L):
                    rt.check("item-position propensities", le(abs_(o3.at(num(j)) - ONE / num(A)), num("1/1000000000000")))
            elif item:
                check_flat(rt, "item-position propensities", o[3], n, L, lambda i, k: marginal(rt, row(i), A, L, k, act[i][k], fact))
            else:
                rt.check("no item-position propensities", o[3] is None)
            inputs_unchanged(rt, lg)
        return body
    return Unit(f"sampling of {n} slates, {A} actions, {L} slots{', factorizable' if fact else ''}{'' if bf else ', uniform'}{'' if item else ', no item position'}", build, samples=10, limit=300, contracts=SOFT)


def given_actions(rt, ts, A, L, fact):
    """case split over the slates a round may hold"""
    for s in slates(A, L, fact):
        if rt.decide(and_(*[eq(t, num(a)) for t, a in zip(ts, s)])):
            return s
    return None


def u_given(n, A, L, fact, item):
    def build(D):
        lg = logits(D, n, A)
        act = D.array("act", (num(n * L),), "int", lo=0, hiT=num(A), gen=lambda rng, env, sh, style: np.concatenate([rng.randint(0, A, size=L) if fact else rng.permutation(A)[:L] for _ in range(n)]))
        if not fact:
            for i in range(n):
                for k in range(L):
                    for j in range(k):
                        D.hyp(not_(eq(act.at(num(i * L + k)), act.at(num(i * L + j)))))

        def body(rt):
            a = [given_actions(rt, [act.at(num(i * L + k)) for k in range(L)], A, L, fact) for i in range(n)]
            ds = dataset(rt, A, L, is_factorizable=fact)
            arg = np.array([x for s in a for x in s])
            o = rt.call(ds.obtain_pscore_given_evaluation_policy_logit, action=arg, evaluation_policy_logit_=lg, return_pscore_item_position=item)
            row = lambda i: (lambda b: lg.at(num(i), b))
            check_flat(rt, "slate propensities", o[0], n, L, lambda i, k: prefix_prob(rt, row(i), A, a[i], fact))
            check_flat(rt, "cascade propensities", o[2], n, L, lambda i, k: prefix_prob(rt, row(i), A, a[i][:k + 1], fact))
            if item:
                check_flat(rt, "item-position propensities", o[1], n, L, lambda i, k: marginal(rt, row(i), A, L, k, a[i][k], fact))
            else:
                rt.check("no item-position propensities", o[1] is None)
            inputs_unchanged(rt, lg)
        return body
    return Unit(f"evaluation propensities of {n} slates, {A} actions, {L} slots{', factorizable' if fact else ''}{'' if item else ', no item position'}", build, samples=12, limit=300, contracts=SOFT)


# ---- rewards

def click_weights(rt, model, L, eta):
    """(examination, attractiveness) of the slots"""
    w = [ONE] + [term(Sym(ONE / num(k + 1), "float") ** eta) if not rt.concrete else num(float((1.0 / (k + 1)) ** float(tm.ev(term(eta), rt.env)))) for k in range(1, L)]
    one = [ONE] * L
    return (w if model == "pbm" else one), (w if model == "cascade" else one)


ETA = lambda r, e: r.choice([0.0, 0.5, 1.0, 2.0])


def u_rewards(model, L):
    def build(D):
        n = D.dim("n", 1, 4)
        q = D.array("q", (n, num(L)), lo=0, hi=1)
        seed = D.int("seed", lo=0, gen=lambda r, e: r.randint(0, 1000))
        eta = D.real("eta", lo=0, gen=ETA)

        def body(rt):
            ds = dataset(rt, L, L, seed, click_model=model, eta=eta)
            ex, al = click_weights(rt, model, L, eta)
            q0 = q.at if rt.concrete else q.orig
            out = rt.call(ds.sample_reward_given_expected_reward, expected_reward_factual=q if not rt.concrete else np.array(rt.mat(q)))
            r = rt.rng(seed)
            d, got = (lambda i: ONE), []
            for k in range(L):
                if k:
                    d = lambda i, d=d, k=k, z=got[-1]: d(i) * (ONE - z.at(i) + z.at(i) * al[k])
                got.append(rt.arr(r.binomial(n=1, p=SArr((n,), lambda i, d=d, k=k: d(i) * q0(i, num(k)) * ex[k]))))
            o = rt.arr(out)
            rt.check("shape", o.ndim == 2 and rt.decide(and_(eq(o.axes[0].n, n), eq(o.axes[1].n, num(L)))))
            for i in rt.each(n):
                for k in range(L):
                    rt.check(f"reward of slot {k}", eq(o.at(i, num(k)), got[k].at(i)))
        return body
    return Unit(f"rewards of the {model} click model, {L} slots", build, samples=15, frame=False)


def u_rewards_continuous(L):
    def build(D):
        n = D.dim("n", 1, 4)
        q = D.array("q", (n, num(L)), lo=0)
        seed = D.int("seed", lo=0, gen=lambda r, e: r.randint(0, 1000))

        def body(rt):
            ds = dataset(rt, L, L, seed, reward_type="continuous")
            out = rt.call(ds.sample_reward_given_expected_reward, expected_reward_factual=q)
            o = rt.arr(out)
            rt.check("shape", o.ndim == 2 and rt.decide(and_(eq(o.axes[0].n, n), eq(o.axes[1].n, num(L)))))
            for k in range(L):
                loc = SArr((n,), lambda i: q.at(i, num(k)))
                lo, hi = [SArr((n,), lambda i, j=j: tn_ab(q.at(i, num(k)), ONE)[j]) for j in (0, 1)]
                z = rt.arr(rt.np(truncnorm.rvs, a=lo, b=hi, loc=loc, scale=1.0, size=I(n), random_state=seed))
                for i in rt.each(n):
                    rt.check(f"reward of slot {k}: truncated normal around its expected reward", eq(o.at(i, num(k)), z.at(i)))
        return body
    return Unit(f"continuous rewards, {L} slots", build, samples=15)


def expected_clicks(q, ex, al):
    """expected reward per slot, over all click patterns of the slots before it"""
    L = len(q)
    out = []
    for k in range(L):
        t = ZERO
        for c in itertools.product((0, 1), repeat=k):
            p, d = ONE, ONE
            for j in range(k):
                pj = d * q[j] * ex[j]
                p = p * (pj if c[j] else ONE - pj)
                d = d * (al[j + 1] if c[j] else ONE)
            t = t + p * d * q[k] * ex[k]
        out.append(t)
    return out


def u_truth(n, A, L, fact, structure, model, binary, base, d=1):
    def build(D):
        lg = logits(D, n, A)
        x = D.array("x", (num(n), num(d)))
        eta = D.real("eta", lo=0, gen=ETA) if model else 1.0
        seed = D.int("seed", lo=0, gen=lambda r, e: r.randint(0, 1000))
        f = UFun(1, binary) if base else None

        def body(rt):
            fn = f if not rt.concrete or f is None else f.materialize(rt)
            ds = dataset(rt, A, L, seed, dim_context=d, is_factorizable=fact, reward_structure=structure, click_model=model, eta=eta, reward_type="binary" if binary else "continuous", base_reward_function=fn)
            v = rt.call(ds.calc_ground_truth_policy_value, context=x, evaluation_policy_logit_=lg)
            ex, al = click_weights(rt, model, L, eta)
            W = rt.arr(rt.get(ds, "action_interaction_weight_matrix"))
            F = rt.arr(rt.call(f, context=x, action_context=rt.np(np.eye, A, dtype=int), random_state=seed) if base else rt.rng(seed).uniform(size=(A, L)))
            tot = ZERO
            for i in range(n):
                for s in slates(A, L, fact):
                    if base:
                        q = slot_reward(rt, structure, binary, L, lambda b: F.at(num(i), b), W.at, lambda k: num(s[k]))
                    else:
                        q = lambda k: F.at(num(s[k]), num(k))
                    q = [q(k) for k in range(L)]
                    if not binary:
                        q = [app("tn_mean", *tn_ab(t, ONE), t, ONE) for t in q]
                    val = sum(expected_clicks(q, ex, al), ZERO)
                    tot = tot + prefix_prob(rt, lambda b: lg.at(num(i), b), A, s, fact) * val
            if rt.concrete:
                rt.check_eq("expected slate reward under the policy", v, Sym(tot / num(n)))
            else:
                rt.check("expected slate reward under the policy", eq(expand(term(v)), expand(tot / num(n))))
            inputs_unchanged(rt, lg, x)
        return body
    return Unit(f"ground truth: {n} rounds, {A} actions, {L} slots, {structure if base else 'context-free'}, {model} clicks{', factorizable' if fact else ''}{'' if binary else ', continuous'}", build, samples=8, contracts=SOFT + SIG, limit=300, tol=1e-6)


# ---- epsilon-greedy and random evaluation policies

def rand_prefix(A, k, fact):
    """probability of a prefix of k slots under the uniform random policy"""
    p = ONE
    for j in range(k):
        p = p / num(A if fact else A - j)
    return p


def u_random(A, L, fact):
    def build(D):
        n, d = D.dim("n", 1, 4), D.dim("d", 1, 2)
        x = D.array("x", (n, d))

        def body(rt):
            ds = dataset(rt, A, L, is_factorizable=fact)
            o = rt.call(ds.generate_evaluation_policy_pscore, evaluation_policy_type="random", context=x)
            ps, item, casc = [rt.arr(v) for v in o]
            for v in (ps, item, casc):
                rt.check("shape", v.ndim == 1 and rt.decide(eq(v.axes[0].n, n * num(L))))
            for i in rt.each(n):
                for k in range(L):
                    j = i * num(L) + num(k)
                    rt.check("slate propensities", eq(ps.at(j), rand_prefix(A, L, fact)))
                    rt.check("item-position propensities", eq(item.at(j), ONE / num(A)))
                    rt.check(f"cascade propensities, slot {k}", eq(casc.at(j), rand_prefix(A, k + 1, fact)))
            inputs_unchanged(rt, x)
        return body
    return Unit(f"random policy: {A} actions, {L} slots{', factorizable' if fact else ''}", build, samples=12)


def u_greedy(kind, n, A, L, fact):
    """epsilon-greedy over the slate of the best (worst) base rewards; base rewards of a round are distinct"""
    def build(D):
        x = D.array("x", (num(n), num(1)))
        act = D.array("act", (num(n * L),), "int", lo=0, hiT=num(A), gen=lambda rng, env, sh, style: np.concatenate([rng.randint(0, A, size=L) if fact else rng.permutation(A)[:L] for _ in range(n)]))
        seed = D.int("seed", lo=0, gen=lambda r, e: r.randint(0, 1000))
        eps = D.real("eps", lo=0, hi=1, gen=lambda r, e: r.choice([0.0, 0.125, 0.5, 1.0]))
        f = UFun(1, False)
        if not fact:
            for i in range(n):
                for k in range(L):
                    for j in range(k):
                        D.hyp(not_(eq(act.at(num(i * L + k)), act.at(num(i * L + j)))))

        def body(rt):
            a = [given_actions(rt, [act.at(num(i * L + k)) for k in range(L)], A, L, fact) for i in range(n)]
            fn = f if not rt.concrete else f.materialize(rt)
            ds = dataset(rt, A, L, seed, is_factorizable=fact, base_reward_function=fn)
            F = rt.arr(rt.call(f, context=x, action_context=rt.np(np.eye, A, dtype=int), random_state=seed))
            for i in range(n):
                for b in range(A):
                    for c in range(b):
                        rt.assume(not_(eq(F.at(num(i), num(b)), F.at(num(i), num(c)))))
            arg = np.array([y for s in a for y in s])
            o = rt.call(ds.generate_evaluation_policy_pscore, evaluation_policy_type=kind, context=x, action=arg, epsilon=eps)
            e = term(eps)

            def match(i, k):
                """the action of slot k is the one the greedy policy puts there: the (k+1)-th best (worst), or the best everywhere"""
                r = 0 if fact else k
                v = F.at(num(i), num(a[i][k]))
                above = ZERO
                for b in range(A):
                    if b != a[i][k]:
                        w = F.at(num(i), num(b))
                        above = above + iv(lt(v, w) if kind == "optimal" else lt(w, v))
                return iv(eq(above, num(r)))

            def pref(i, k):
                p = ONE
                for j in range(k):
                    p = p * match(i, j)
                return p
            check_flat(rt, "slate propensities", o[0], n, L, lambda i, k: (ONE - e) * pref(i, L) + e * rand_prefix(A, L, fact))
            check_flat(rt, "item-position propensities", o[1], n, L, lambda i, k: (ONE - e) * match(i, k) + e / num(A))
            check_flat(rt, "cascade propensities", o[2], n, L, lambda i, k: (ONE - e) * pref(i, k + 1) + e * rand_prefix(A, k + 1, fact))
            inputs_unchanged(rt, x)
        return body
    return Unit(f"{kind} policy: {n} rounds, {A} actions, {L} slots{', factorizable' if fact else ''}", build, samples=12, limit=300)


def u_dist(n, A, L, fact):
    """the action distribution at every slot given the logged actions before it (masked actions have logit -10000)"""
    def build(D):
        lg = logits(D, n, A)
        act = D.array("act", (num(n * L),), "int", lo=0, hiT=num(A), gen=lambda rng, env, sh, style: np.concatenate([rng.randint(0, A, size=L) if fact else rng.permutation(A)[:L] for _ in range(n)]))

        def body(rt):
            a = [given_actions(rt, [act.at(num(i * L + k)) for k in range(L)], A, L, fact) for i in range(n)]
            if None in a:
                return
            ds = dataset(rt, A, L, is_factorizable=fact)
            o = rt.arr(rt.call(ds.calc_evaluation_policy_action_dist, action=np.array([y for s in a for y in s]), evaluation_policy_logit_=lg))
            rt.check("shape", o.ndim == 1 and rt.decide(eq(o.axes[0].n, num(n * L * A))))
            for i in range(n):
                for k in range(L):
                    z = lambda b: num(-10000) if not fact and int(b.args[0]) in a[i][:k] else lg.at(num(i), b)
                    for b in range(A):
                        rt.check(f"round {i}, slot {k}, action {b}", eq(o.at(num((i * L + k) * A + b)), slot_prob(rt, z, A, (), b, True)))
            inputs_unchanged(rt, lg)
        return body
    return Unit(f"action distributions of {n} slates, {A} actions, {L} slots{', factorizable' if fact else ''}", build, samples=12, limit=300, contracts=SOFT)


def u_onpolicy():
    def build(D):
        n = D.dim("n", 1, 6)
        r = D.array("r", (n,))
        sid = D.array("sid", (n,), "int", lo=0, hi=3)

        def body(rt):
            ds = dataset(rt, 2, 2)
            v = rt.call(ds.calc_on_policy_policy_value, reward=r, slate_id=sid)
            u = rt.arr(rt.np(np.unique, sid))
            rt.check_eq("sum of the slot rewards per slate", v, Sym(Sum(n, r.at) / u.axes[0].n))
            inputs_unchanged(rt, r, sid)
        return body
    return Unit("on-policy slate value", build, samples=20)


# ---- the whole data generation

def u_batch(n, A, L, fact, structure, model, binary, base, bf):
    def build(D):
        seed = D.int("seed", lo=0, gen=lambda r, e: r.randint(0, 1000))
        eta = D.real("eta", lo=0, gen=ETA) if model else 1.0
        f = UFun(1, binary) if base else None
        g = UFun(2, False) if bf else None
        d = 1

        def body(rt):
            m = lambda u: u if not rt.concrete or u is None else u.materialize(rt)
            ds = dataset(rt, A, L, seed, dim_context=d, is_factorizable=fact, reward_structure=structure, click_model=model, eta=eta, reward_type="binary" if binary else "continuous",
                         base_reward_function=m(f), behavior_policy_function=m(g))
            W = rt.arr(rt.get(ds, "action_interaction_weight_matrix"))
            fb = rt.call(ds.obtain_batch_bandit_feedback, n_rounds=n)
            r = rt.rng(seed)
            x = r.normal(size=(n, d))
            eye = rt.np(np.eye, A, dtype=int)
            lg = rt.arr(rt.call(g, context=x, action_context=eye, random_state=seed)).at if bf else (lambda i, b: ONE / num(A))
            act = draws(rt, r, lg, n, A, L, fact)
            row = lambda i: (lambda b: lg(num(i), b))
            F = rt.arr(rt.call(f, context=x, action_context=eye, random_state=seed) if base else rt.rng(seed).uniform(size=(A, L)))
            ex, al = click_weights(rt, model, L, eta)

            def q(i, k):
                if base:
                    return slot_reward(rt, structure, binary, L, lambda b: F.at(num(i), b), W.at, lambda j: num(act[i][j]))(k)
                return F.at(num(act[i][k]), num(k))
            rt.check("keys", sorted(fb) == sorted(["n_rounds", "n_unique_action", "slate_id", "context", "action_context", "action", "position", "reward", "expected_reward_factual", "pscore_cascade", "pscore", "pscore_item_position"]))
            rt.check_eq("n_rounds", fb["n_rounds"], n)
            rt.check_eq("n_unique_action", fb["n_unique_action"], A)
            X, c = rt.arr(x), rt.arr(fb["context"])
            for i in range(n):
                for j in range(d):
                    rt.check("context", eq(c.at(num(i), num(j)), X.at(num(i), num(j))))
            ac = rt.arr(fb["action_context"])
            for b in range(A):
                for j in range(A):
                    rt.check("action_context", eq(ac.at(num(b), num(j)), num(int(b == j))))
            check_flat(rt, "slate_id", fb["slate_id"], n, L, lambda i, k: num(i))
            check_flat(rt, "position", fb["position"], n, L, lambda i, k: num(k))
            check_flat(rt, "action", fb["action"], n, L, lambda i, k: num(act[i][k]))
            check_flat(rt, "pscore", fb["pscore"], n, L, lambda i, k: prefix_prob(rt, row(i), A, act[i], fact))
            check_flat(rt, "pscore_cascade", fb["pscore_cascade"], n, L, lambda i, k: prefix_prob(rt, row(i), A, act[i][:k + 1], fact))
            if bf:
                check_flat(rt, "pscore_item_position", fb["pscore_item_position"], n, L, lambda i, k: marginal(rt, row(i), A, L, k, act[i][k], fact))
            if binary:
                check_flat(rt, "expected_reward_factual", fb["expected_reward_factual"], n, L, lambda i, k: q(i, k) * ex[k])
                dsc, got = [ONE] * n, []
                for k in range(L):
                    if k:
                        z = rt.arr(got[-1])
                        dsc = [dsc[i] * (ONE - z.at(num(i)) + z.at(num(i)) * al[k]) for i in range(n)]
                    ps = [dsc[i] * q(i, k) * ex[k] for i in range(n)]
                    got.append(r.binomial(n=1, p=SArr((num(n),), lambda i, ps=ps: pick_term(ps, i))))
                got = [rt.arr(z) for z in got]
                check_flat(rt, "reward", fb["reward"], n, L, lambda i, k: got[k].at(num(i)))
            else:
                check_flat(rt, "expected_reward_factual", fb["expected_reward_factual"], n, L, lambda i, k: app("tn_mean", *tn_ab(q(i, k), ONE), q(i, k), ONE))
                col = []
                for k in range(L):
                    v = [q(i, k) for i in range(n)]
                    w = [SArr((num(n),), lambda i, t=t: pick_term(t, i)) for t in (v, [tn_ab(y, ONE)[0] for y in v], [tn_ab(y, ONE)[1] for y in v])]
                    col.append(rt.arr(rt.np(truncnorm.rvs, a=w[1], b=w[2], loc=w[0], scale=1.0, size=n, random_state=seed)))
                check_flat(rt, "reward", fb["reward"], n, L, lambda i, k: col[k].at(num(i)))
        return body
    return Unit(f"feedback: {n} rounds, {A} actions, {L} slots, {structure if base else 'context-free'}, {model} clicks{', factorizable' if fact else ''}{'' if binary else ', continuous'}{'' if bf else ', uniform policy'}",
                build, samples=8, contracts=SOFT + SIG, limit=300, tol=1e-6)


# ---- validation

def u_construct():
    def build(D):
        A, L, d = D.int("A", gen=lambda r, e: r.randint(0, 5)), D.int("L", gen=lambda r, e: r.randint(0, 6)), D.int("d", gen=lambda r, e: r.randint(-1, 3))
        D.hyp(le(term(L), num(6)))

        def body(rt):
            for fact in (False, True):
                ok = and_(le(num(2), term(A)), le(num(2), term(L)), le(ONE, term(d)), *([] if fact else [le(term(L), term(A))]))
                o = rt.outcome(lambda: rt.new(SyntheticSlateBanditDataset, n_unique_action=A, len_list=L, dim_context=d, is_factorizable=fact, random_state=1))
                rt.check("accepted exactly when at least two actions and slots (no more slots than actions unless factorizable) and one context dimension", ok if o.returned else not_(ok))
                if not o.returned:
                    rt.check("rejected with ValueError", o.raised(ValueError))
        return body
    return Unit("constructor sizes", build, samples=40)


def u_invalid():
    def build(D):
        def body(rt):
            mk = lambda **kw: rt.outcome(lambda: rt.new(SyntheticSlateBanditDataset, **{**dict(n_unique_action=3, len_list=2, random_state=1), **kw}))
            rt.check("default configuration", mk().returned)
            for kw in (dict(reward_type="multi"), dict(reward_structure="none"), dict(decay_function="linear"), dict(click_model="dbn"), dict(click_model="pbm", eta=-1.0), dict(click_model="cascade", eta=-1.0),
                       dict(click_model="pbm", reward_type="continuous"), dict(click_model="cascade", reward_type="continuous")):
                o = mk(**kw)
                rt.check(f"rejected: {kw}", o.raised(ValueError))
            for kw in (dict(n_unique_action=3.0), dict(len_list="2"), dict(dim_context=1.5), dict(click_model="pbm", eta="1")):
                rt.check(f"rejected: {kw}", mk(**kw).raised(TypeError))
            ds = dataset(rt, 3, 2)
            x, lg, a = np.zeros((2, 1)), np.zeros((2, 3)), np.array([0, 1, 2, 0])
            bad = dict(
                context=(ds.calc_ground_truth_policy_value, dict(context=x[0], evaluation_policy_logit_=lg)),
                logits=(ds.calc_ground_truth_policy_value, dict(context=x, evaluation_policy_logit_=lg[0])),
                actions=(ds.calc_ground_truth_policy_value, dict(context=x, evaluation_policy_logit_=lg[:, :2])),
                rounds=(ds.calc_ground_truth_policy_value, dict(context=x, evaluation_policy_logit_=lg[:1])),
                width=(ds.calc_ground_truth_policy_value, dict(context=np.zeros((2, 3)), evaluation_policy_logit_=lg)),
                given_logits=(ds.obtain_pscore_given_evaluation_policy_logit, dict(action=a, evaluation_policy_logit_=lg[:, :2])),
                given_rounds=(ds.obtain_pscore_given_evaluation_policy_logit, dict(action=a[:3], evaluation_policy_logit_=lg)),
                dist_logits=(ds.calc_evaluation_policy_action_dist, dict(action=a, evaluation_policy_logit_=lg[:, :2])),
                dist_rounds=(ds.calc_evaluation_policy_action_dist, dict(action=a[:3], evaluation_policy_logit_=lg)),
                policy=(ds.generate_evaluation_policy_pscore, dict(evaluation_policy_type="best", context=x, action=a)),
                lengths=(ds.calc_on_policy_policy_value, dict(reward=np.zeros(3), slate_id=np.zeros(4, dtype=int))),
                n_rounds=(ds.obtain_batch_bandit_feedback, dict(n_rounds=0)),
            )
            for k, (f, kw) in bad.items():
                rt.check(f"rejected: {k}", rt.outcome(lambda: rt.call(f, **kw)).raised(ValueError))
        return body
    return Unit("invalid arguments", build, samples=1)


def units():
    us = [u_decay("exponential"), u_decay("inverse"), u_behavior()]
    us += [u_matrix(s, k, L) for s in STRUCT for k in ("exponential", "inverse") for L in (2, 3, 4) if "additive" not in s or (k, L) == ("inverse", 2)]
    us += [u_reward(s, b, L, e) for s in STRUCT for b in (True, False) for L in (2, 3) for e in (False, True)]
    us += [u_sample(1, 3, 2, f, True, i) for f in (False, True) for i in (True, False)]
    us += [u_sample(2, 3, 2, False, True, True), u_sample(1, 3, 3, False, True, True), u_sample(2, 2, 2, True, True, True), u_sample(1, 2, 3, True, True, True), u_sample(1, 3, 2, False, False, True), u_sample(1, 3, 2, True, False, True)]
    us += [u_given(1, 3, 2, f, i) for f in (False, True) for i in (True, False)] + [u_given(2, 3, 2, False, True), u_given(2, 2, 2, True, True), u_given(1, 3, 3, False, True), u_given(1, 2, 3, True, True)]
    us += [u_rewards(m, L) for m in ("cascade", "pbm", None) for L in (2, 3)] + [u_rewards_continuous(2), u_rewards_continuous(3)]
    us += [u_truth(n, 2, 2, False, s, None, True, True) for n in (1, 2) for s in STRUCT]
    us += [u_truth(1, 3, 2, False, "cascade_decay", m, True, True) for m in ("cascade", "pbm")]
    us += [u_truth(1, 3, 3, False, "independent", m, True, True) for m in ("cascade", "pbm")]
    us += [u_truth(2, 2, 2, True, "standard_additive", m, True, True) for m in ("cascade", None)]
    us += [u_truth(1, 2, 2, f, "independent", None, False, b) for f in (False, True) for b in (False, True)]
    us += [u_truth(2, 3, 2, False, "independent", m, True, False) for m in (None, "cascade", "pbm")]
    us += [u_construct(), u_invalid()]
    us += [u_random(A, L, f) for A, L in ((2, 2), (3, 2), (4, 3)) for f in (False, True)] + [u_random(2, 3, True), u_onpolicy()]
    us += [u_greedy(k, n, A, L, f) for k in ("optimal", "anti-optimal") for n, A, L, f in ((1, 3, 2, False), (1, 3, 3, False), (2, 2, 2, False), (1, 3, 2, True), (2, 2, 2, True), (1, 2, 3, True))]
    us += [u_dist(n, A, L, f) for n, A, L, f in ((1, 3, 2, False), (2, 2, 2, False), (1, 3, 3, False), (1, 3, 2, True), (2, 2, 2, True))]
    us += [u_batch(1, 3, 2, False, s, None, True, True, True) for s in STRUCT] + [u_batch(2, 2, 2, True, "standard_decay", None, True, True, True)]
    us += [u_batch(2, 2, 2, False, "cascade_decay", m, True, True, True) for m in ("cascade", "pbm")] + [u_batch(1, 3, 3, False, "independent", "pbm", True, True, True)]
    us += [u_batch(1, 2, 2, False, "cascade_additive", None, False, b, bf) for b in (True, False) for bf in (True, False)] + [u_batch(2, 3, 2, False, "independent", "cascade", True, False, False)]
    return us
