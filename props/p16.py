"""Synthetic bandit data: logged fields agree with each other and with the model that generated them."""
from .common import *
from .contracts import CONTRACTS, VALIDATION
from .p12 import arr, soft, sig, first_above
from pv.shim_misc import UFun
from scipy.stats import truncnorm
import obp.dataset.synthetic as S
from obp.dataset import SyntheticBanditDataset

RMAX = num(1e10)


def tn_ab(q, std):
    return (ZERO - q) / std, (RMAX - q) / std


def settings(D, binary, rf, bf, ac=True):
    A = D.dim("A", 2, 4)
    k = {"n": D.dim("n", 1, 5), "A": A, "d": D.dim("d", 1, 3)}
    k["seed"] = D.int("seed", lo=0, gen=lambda r, e: r.randint(0, 1000))
    k["beta"] = D.real("beta", gen=lambda r, e: r.choice([-3.0, -0.5, 0.0, 1.0, 2.5]))
    k["std"] = D.real("std", lo=0, lo_strict=True, gen=lambda r, e: r.choice([0.1, 0.5, 1.0, 3.0]))
    k["ac"] = D.array("ac", (A, D.dim("da", 1, 2))) if ac else None
    k["rf"] = UFun(1, binary) if rf else None
    k["bf"] = UFun(2, False) if bf else None
    kw = dict(n_actions=Sym(A, "int"), dim_context=Sym(k["d"], "int"), reward_type="binary" if binary else "continuous",
              reward_function=k["rf"], reward_std=k["std"], action_context=k["ac"], behavior_policy_function=k["bf"], beta=k["beta"], random_state=k["seed"])
    return k, kw


def spec_feedback(rt, k, binary, n_def=0):
    """the data a generator seeded with `random_state` has to produce"""
    n, A, d, seed = k["n"], k["A"], k["d"], k["seed"]
    I = lambda t: Sym(t, "int")
    r = rt.rng(seed)
    cf = arr(rt, r.uniform(size=I(A))) if k["rf"] is None else None
    ctx = arr(rt, r.normal(size=(I(n), I(d))))
    ac = k["ac"] if k["ac"] is not None else SArr((A, A), lambda i, j: iv(eq(i, j)), "int")
    raw = SArr((n, A), lambda i, a: cf.at(a)) if cf is not None else arr(rt, rt.call(k["rf"], context=ctx, action_context=ac, random_state=seed))
    std = term(k["std"])
    if binary:
        q = raw
    else:
        q = SArr((n, A), lambda i, a: app("tn_mean", *tn_ab(raw.at(i, a), std), raw.at(i, a), std))
    lg = q if k["bf"] is None else arr(rt, rt.call(k["bf"], context=ctx, action_context=ac, random_state=seed))
    be = term(k["beta"])
    if n_def:
        pi = limited(rt, r, n, A, n_def, lambda i, a: be * lg.at(i, a))
    else:
        pi = SArr((n, A), lambda i, a: soft(A, lambda j: be * lg.at(i, j))(a))
    u = arr(rt, rt.rng(seed).uniform(size=I(n)))
    act = SArr((n,), lambda i: first_above(pi.at, A, i, u.at(i)), "int")
    qa = SArr((n,), lambda i: raw.at(i, act.at(i)))
    if binary:
        rew = arr(rt, r.binomial(1, qa))
    else:
        lo, hi = [SArr((n,), lambda i, j=j: tn_ab(qa.at(i), std)[j]) for j in (0, 1)]
        rew = arr(rt, rt.np(truncnorm.rvs, a=lo, b=hi, loc=qa, scale=k["std"], size=I(n), random_state=seed))
    return dict(n_rounds=I(n), n_actions=I(A), context=ctx, action_context=ac, action=act, position=None, reward=rew, expected_reward=q,
                pi_b=SArr((n, A, ONE), lambda i, a, p: pi.at(i, a)), pscore=SArr((n,), lambda i: pi.at(i, act.at(i))))


def limited(rt, r, n, A, nd, logit):
    """softmax over the A - nd actions with the largest noise, nothing elsewhere"""
    g = arr(rt, r.gumbel(size=(Sym(n, "int"), Sym(A, "int"))))
    ns = A - term(nd)
    row = lambda i: _lam(A, lambda e: g.at(i, e))
    best = lambda i, j: app("argsort", row(i), A, A - ONE - j, sort="I")
    place = lambda i, a: A - ONE - app("argrank", row(i), A, a, sort="I")
    return SArr((n, A), lambda i, a: ite(lt(place(i, a), ns), soft(ns, lambda j: logit(i, best(i, j)))(place(i, a)), ZERO))


def _lam(n, f):
    k = tm.fresh("z", "I", (ZERO, n))
    return tm.bind_var("lam", n, k, f(k))


def u_limited(binary, rf, bf):
    def build(D):
        k, kw = settings(D, binary, rf, bf)
        A, n = k["A"], k["n"]
        nd = D.int("nd", lo=1, gen=lambda r, e: r.randint(1, max(int(tm.ev(A, e)), 2)))
        D.hyp(lt(term(nd), A))

        def body(rt):
            ds = rt.new(SyntheticBanditDataset, n_deficient_actions=nd, **kw)
            fb = rt.call(ds.obtain_batch_bandit_feedback, Sym(n, "int"))
            rt.check_eq("feedback", fb, spec_feedback(rt, k, binary, nd))
        return body
    return Unit(f"feedback with deficient actions: {'binary' if binary else 'continuous'} rewards, {'given' if rf else 'context-free'} reward function, {'given' if bf else 'softmax'} behaviour policy", build, samples=20, contracts=VALIDATION)


def u_feedback(binary, rf, bf, ac):
    def build(D):
        k, kw = settings(D, binary, rf, bf, ac)

        def body(rt):
            n, A = k["n"], k["A"]
            ds = rt.new(SyntheticBanditDataset, **kw)
            fb = rt.call(ds.obtain_batch_bandit_feedback, Sym(n, "int"))
            rt.check_eq("feedback", fb, spec_feedback(rt, k, binary))
            pi, a, ps = arr(rt, fb["pi_b"]), arr(rt, fb["action"]), arr(rt, fb["pscore"])
            rt.check("the behaviour policy is a distribution", Forall(n, lambda i: eq(Sum(A, lambda j: pi.at(i, j, ZERO)), ONE)))
            rt.check("the propensity is the logged action's probability", Forall(n, lambda i: eq(ps.at(i), pi.at(i, a.at(i), ZERO))))
            rt.check("propensities are positive", Forall(n, lambda i: lt(ZERO, ps.at(i))))
            rt.check("actions are in range", Forall(n, lambda i: and_(le(ZERO, a.at(i)), lt(a.at(i), A))))
        return body
    return Unit(f"feedback: {'binary' if binary else 'continuous'} rewards, {'given' if rf else 'context-free'} reward function, {'given' if bf else 'softmax'} behaviour policy{'' if ac else ', one-hot action context'}",
                build, samples=20, contracts=VALIDATION)


def u_sample_reward(binary, rf):
    def build(D):
        k, kw = settings(D, binary, rf, False)
        n, A = k["n"], k["A"]
        ctx = D.array("ctx", (n, k["d"]))
        act = D.array("act", (n,), "int", lo=0, hiT=A)

        def body(rt):
            ds = rt.new(SyntheticBanditDataset, **kw)
            r = rt.rng(k["seed"])
            cf = arr(rt, r.uniform(size=Sym(A, "int"))) if not rf else None
            raw = SArr((n, A), lambda i, a: cf.at(a)) if cf is not None else arr(rt, rt.call(k["rf"], context=ctx, action_context=k["ac"], random_state=k["seed"]))
            rt.check_eq("expected reward", rt.call(ds.calc_expected_reward, ctx), raw)
            qa = SArr((n,), lambda i: raw.at(i, act.at(i)))
            std = term(k["std"])
            if binary:
                want = arr(rt, r.binomial(1, qa))
            else:
                lo, hi = [SArr((n,), lambda i, j=j: tn_ab(qa.at(i), std)[j]) for j in (0, 1)]
                want = arr(rt, rt.np(truncnorm.rvs, a=lo, b=hi, loc=qa, scale=k["std"], size=Sym(n, "int"), random_state=k["seed"]))
            rt.check_eq("sampled reward", rt.call(ds.sample_reward, context=ctx, action=act), want)
            inputs_unchanged(rt, ctx, act)
        return body
    return Unit(f"sample_reward: {'binary' if binary else 'continuous'} rewards, {'given' if rf else 'context-free'} reward function", build, samples=20)


def u_truth():
    def build(D):
        n, A, L = D.dim("n", 1, 5), D.dim("A", 2, 4), D.dim("L", 1, 3)
        q = D.array("q", (n, A))
        pi = D.array("pi", (n, A, L), simplex=1)
        seed = D.int("seed", lo=0, gen=lambda r, e: r.randint(0, 1000))

        def body(rt):
            ds = rt.new(SyntheticBanditDataset, n_actions=2, random_state=seed)
            v = rt.call(ds.calc_ground_truth_policy_value, expected_reward=q, action_dist=pi)
            rt.check_eq("policy value", v, mean(n, lambda i: Sum(A, lambda a: q.at(i, a) * pi.at(i, a, ZERO))))
            inputs_unchanged(rt, q, pi)
        return body
    return Unit("ground-truth policy value", build, samples=25)


def u_ctor():
    def build(D):
        A = D.int("A", gen=lambda r, e: r.randint(0, 4))
        d = D.int("d", gen=lambda r, e: r.randint(-1, 3))
        nd = D.int("nd", gen=lambda r, e: r.randint(-1, 4))
        std = D.real("std", gen=lambda r, e: r.choice([-1.0, 0.0, 1.0]))

        def body(rt):
            o = rt.outcome(lambda: rt.new(SyntheticBanditDataset, n_actions=A, dim_context=d, n_deficient_actions=nd, reward_std=std, random_state=1))
            bad = or_(lt(term(A), num(2)), lt(term(d), ONE), lt(term(nd), ZERO), lt(term(A) - ONE, term(nd)), lt(term(std), ZERO))
            if rt.decide(bad):
                rt.check("out of range rejected", o.raised(ValueError))
            else:
                rt.check("in range accepted", o.returned)
            for kw in (dict(n_actions="2"), dict(n_actions=2.0), dict(n_actions=2, dim_context=1.0), dict(n_actions=2, beta="1"), dict(n_actions=2, reward_std=None), dict(n_actions=2, n_deficient_actions=1.0)):
                rt.check(f"wrong type rejected {sorted(kw)}", rt.outcome(lambda: rt.new(SyntheticBanditDataset, **kw)).raised(TypeError))
            rt.check("unknown reward type rejected", rt.outcome(lambda: rt.new(SyntheticBanditDataset, n_actions=2, reward_type="gauss")).raised(ValueError))
            rt.check("random_state is required", rt.outcome(lambda: rt.new(SyntheticBanditDataset, n_actions=2, random_state=None)).raised(ValueError))
        return body
    return Unit("constructor validation", build, samples=20)


def u_rejects():
    def build(D):
        n, m, A, B = D.dim("n", 1, 3), D.int("m", lo=1, gen=lambda r, e: r.randint(1, 4)), D.dim("A", 2, 3), D.int("B", lo=1, gen=lambda r, e: r.randint(1, 4))
        q, pi = D.array("q", (n, A)), D.array("pi", (term(m), term(B), ONE), simplex=1)
        nr = D.int("nr", gen=lambda r, e: r.randint(-1, 2))
        ctx, act = D.array("ctx", (n, num(2))), D.array("act", (term(m),), "int", lo=0, hi=1)
        ac = D.array("ac", (term(B), num(2)))

        def body(rt):
            ds = rt.new(SyntheticBanditDataset, n_actions=2, dim_context=2, random_state=1)
            o = rt.outcome(lambda: rt.call(ds.calc_ground_truth_policy_value, expected_reward=q, action_dist=pi))
            rt.check("policy value: shapes must agree", o.returned if rt.decide(and_(eq(n, term(m)), eq(A, term(B)))) else o.raised(ValueError))
            o = rt.outcome(lambda: rt.call(ds.sample_reward, context=ctx, action=act))
            rt.check("sample_reward: lengths must agree", o.returned if rt.decide(eq(n, term(m))) else o.raised(ValueError))
            o = rt.outcome(lambda: rt.call(ds.obtain_batch_bandit_feedback, nr))
            rt.check("n_rounds must be positive", o.returned if rt.decide(le(ONE, term(nr))) else o.raised(ValueError))
            o = rt.outcome(lambda: rt.new(SyntheticBanditDataset, n_actions=2, action_context=ac))
            rt.check("one action context per action", o.returned if rt.decide(eq(term(B), num(2))) else o.raised(ValueError))
            for bad in (None, 1.0, "1"):
                rt.check("n_rounds of the wrong type", rt.outcome(lambda: rt.call(ds.obtain_batch_bandit_feedback, bad)).raised(TypeError))
        return body
    return Unit("malformed requests are rejected", build, samples=20)


def poly(rt, degree, x):
    from sklearn.preprocessing import PolynomialFeatures as P
    return rt.arr(P(degree=degree).fit_transform(rt.mat(x)) if rt.concrete else rt.call(rt.call(P, degree=degree).fit_transform, x))


def sigf(rt, t):
    """the sigmoid, through the contract of obp.utils.sigmoid (proved in P12)"""
    return sig(t) if rt.concrete else app("sigmoid", t)


def u_reward(fn, degree, logistic, sparse, z):
    def build(D):
        n, A = D.dim("n", 2, 5), D.dim("A", 2, 3)
        ctx, ac = D.array("ctx", (n, D.dim("d", 1, 2))), D.array("ac", (A, D.dim("da", 1, 2)))
        seed = D.int("seed", lo=0, gen=lambda r, e: r.randint(0, 1000))

        def body(rt):
            X, Y = poly(rt, degree, ctx), poly(rt, degree, ac)
            r = rt.rng(seed)
            dx, dy = X.axes[1].n, Y.axes[1].n
            if sparse:
                ratio = num(0.3)
                ex, ey = [nm.norm(max2(app("trunc", ratio * t, sort="I"), ONE)) for t in (dx, dy)]
                cx = rt.arr(r.choice(Sym(dx, "int"), Sym(ex, "int"), replace=False))
                cy = rt.arr(r.choice(Sym(dy, "int"), Sym(ey, "int"), replace=False))
                fx, fy = (lambda i, j: X.at(i, cx.at(j))), (lambda i, j: Y.at(i, cy.at(j)))
            else:
                ex, ey, fx, fy = dx, dy, X.at, Y.at
            I = lambda t: Sym(t, "int")
            c = rt.arr(r.uniform(-1, 1, size=I(ex)))
            b = rt.arr(r.uniform(-1, 1, size=I(ey)))
            M = rt.arr(r.uniform(-1, 1, size=(I(ex), I(ey))))
            raw = lambda i, a: (Sum(ex, lambda j: fx(i, j) * c.at(j)) + Sum(ey, lambda k: b.at(k) * fy(a, k))
                                + Sum(ex, lambda j: Sum(ey, lambda k: fx(i, j) * M.at(j, k) * fy(a, k))))
            if z:
                mu = opq(rt, lambda: Sum(n, lambda i: Sum(A, lambda a: raw(i, a))) / (n * A))
                v = opq(rt, lambda: Sum(n, lambda i: Sum(A, lambda a: (raw(i, a) - mu) ** 2)) / (n * A))
                rt.assume(lt(num(1e-9) if rt.concrete else ZERO, v))
                val = lambda i, a: num(degree) * (raw(i, a) - mu) / sqrt(v)
            else:
                val = lambda i, a: num(degree) * raw(i, a)
            if not rt.concrete:
                D.opaque_var(opq_namer, means=True)
            out = rt.call(fn, context=ctx, action_context=ac, z_score=z, random_state=seed)
            rt.check_eq("expected reward", out, SArr((n, A), (lambda i, a: sigf(rt, val(i, a))) if logistic else val))
            inputs_unchanged(rt, ctx, ac)
        return body
    return Unit(f"{fn.__name__}{'' if z else ', not standardised'}", build, samples=25, contracts=("obp.utils:sigmoid",), needs=("obp.utils:sigmoid",) if "logistic" in fn.__name__ else ())


def u_behavior(fn, degree):
    def build(D):
        n, A = D.dim("n", 2, 5), D.dim("A", 2, 3)
        ctx, ac = D.array("ctx", (n, D.dim("d", 1, 2))), D.array("ac", (A, D.dim("da", 1, 2)))
        seed = D.int("seed", lo=0, gen=lambda r, e: r.randint(0, 1000))

        def body(rt):
            X, Y = poly(rt, degree, ctx), poly(rt, degree, ac)
            r = rt.rng(seed)
            dx, dy = X.axes[1].n, Y.axes[1].n
            I = lambda t: Sym(t, "int")
            b = rt.arr(r.uniform(size=I(dy)))
            M = rt.arr(r.uniform(size=(I(dx), I(dy))))
            raw = lambda i, a: Sum(dx, lambda j: Sum(dy, lambda k: X.at(i, j) * M.at(j, k) * Y.at(a, k))) + Sum(dy, lambda k: b.at(k) * Y.at(a, k))
            mu = opq(rt, lambda: Sum(n, lambda i: Sum(A, lambda a: raw(i, a))) / (n * A))
            v = opq(rt, lambda: Sum(n, lambda i: Sum(A, lambda a: (raw(i, a) - mu) ** 2)) / (n * A))
            rt.assume(lt(num(1e-9) if rt.concrete else ZERO, v))
            if not rt.concrete:
                D.opaque_var(opq_namer, means=True)
            out = rt.call(fn, context=ctx, action_context=ac, random_state=seed)
            rt.check_eq("logits", out, SArr((n, A), lambda i, a: num(degree) * (raw(i, a) - mu) / sqrt(v)))
            inputs_unchanged(rt, ctx, ac)
        return body
    return Unit(fn.__name__, build, samples=25)


def units():
    us = []
    for binary in (True, False):
        for rf in (True, False):
            for bf in (True, False):
                us.append(u_feedback(binary, rf, bf, True))
            us.append(u_sample_reward(binary, rf))
        us.append(u_feedback(binary, False, False, False))
    us += [u_limited(b, r, f) for b in (True, False) for r in (True, False) for f in (True, False)]
    us += [u_truth(), u_ctor(), u_rejects()]
    for name, deg, sp in (("", 1, False), ("polynomial_", 3, False), ("sparse_", 4, True)):
        for z in (False, True):
            us.append(u_reward(getattr(S, f"logistic_{name}reward_function"), deg, True, sp, z))
            us.append(u_reward(getattr(S, f"{name or 'linear_'}reward_function"), deg, False, sp, z))
    us += [u_behavior(S.linear_behavior_policy, 1), u_behavior(S.polynomial_behavior_policy, 3)]
    return us
