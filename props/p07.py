"""Slate estimators compute their formulas over slates."""
from .common import *
from .boot import *
from .contracts import CONTRACTS, VALIDATION
from .slatec import *
import obp.ope.estimators_slate as S

ASSUMPTIONS = []
CHK = VALIDATION + SLATE_VALIDATION


def slates(rt, sid):
    return rt.np(np.unique, sid)


def est_w(a, ps, i):
    return a["evaluation_policy_" + ps].at(i) / a[ps].at(i)


def value_unit(cls, fn, per, hyp=None, reward_kind="float"):
    """per(a, ps, n, L, i) = estimate of one record"""
    def build(D):
        n, a, ps = slate_args(D, fn)
        L = D.int("L", lo=1, gen=lambda r, e: int(e.arrays["position"].max()) + 1 + r.randint(0, 2))
        D.hyp(Forall(n, lambda i: and_(le(ZERO, a["position"].at(i)), lt(a["position"].at(i), term(L)))))
        D.hyp(Forall(n, lambda i: and_(lt(ZERO, a[ps].at(i)), le(a[ps].at(i), ONE), le(ZERO, a["evaluation_policy_" + ps].at(i)), le(a["evaluation_policy_" + ps].at(i), ONE), le(ZERO, a["slate_id"].at(i)))))
        D.hyp(no_dup(n, a["slate_id"], a["position"]))
        if fn == "check_sips_inputs":
            D.hyp(and_(const_in_slate(n, a["slate_id"], a[ps]), const_in_slate(n, a["slate_id"], a["evaluation_policy_" + ps])))
        if fn == "check_rips_inputs":
            D.hyp(and_(decreasing_in_slate(n, a["slate_id"], a["position"], a[ps]), decreasing_in_slate(n, a["slate_id"], a["position"], a["evaluation_policy_" + ps])))
        if hyp:
            D.hyp(hyp(a, ps, n))
        B = D.int("B", lo=1, gen=lambda r, e: r.randint(1, 5))
        seed = D.int("seed", lo=0, gen=lambda r, e: r.randint(0, 1000))
        al = D.real("alpha", lo=0, hi=1)

        def body(rt):
            e = rt.new(cls, len_list=L)
            u = slates(rt, a["slate_id"])
            m = term(u.shape[0])
            rt.check_eq("estimate_policy_value", rt.call(e.estimate_policy_value, **a), Sum(n, lambda i: per(a, ps, n, i)) / m)
            tot = lambda g: Sum(n, lambda i: ite(eq(a["slate_id"].at(i), u.at(g)), per(a, ps, n, i), ZERO))
            r = rt.call(e.estimate_interval, alpha=al, n_bootstrap_samples=B, random_state=seed, **a)
            rt.check_eq("estimate_interval resamples the slates", r, ci_spec(rt, boot_means(rt, tot, m, B, seed), al, B))
            inputs_unchanged(rt, *a.values())
        return body
    return Unit(f"{cls.__name__}", build, contracts=CHK, samples=25)


def cascade_unit():
    def build(D):
        n, L, A = D.dim("n", 1, 3), D.dim("L", 1, 3), D.dim("A", 1, 3)
        N = n * L
        ids = lambda rng, env, sh, style: np.repeat(np.sort(rng.choice(10, size=env.vars["n"], replace=False)), env.vars["L"])
        a = dict(slate_id=D.array("slate_id", (N,), "int", lo=0, gen=ids),
                 position=D.array("position", (N,), "int", lo=0, gen=lambda rng, env, sh, style: np.tile(np.arange(env.vars["L"]), env.vars["n"])),
                 action=D.array("action", (N,), "int", lo=0, hiT=A), reward=D.array("reward", (N,)))
        a["pscore_cascade"] = D.array("ps", (N,), lo=0, lo_strict=True, hi=1, gen=g_ps_slate("cascade", 0.01))
        a["evaluation_policy_pscore_cascade"] = D.array("eps", (N,), lo=0, hi=1, gen=g_ps_slate("cascade"))
        a["q_hat"] = D.array("q", (N * A,))
        a["evaluation_policy_action_dist"] = D.array("dist", (N * A,), lo=0, hi=1, gen=lambda rng, env, sh, style: rng.dirichlet(np.ones(env.vars["A"]), size=env.vars["n"] * env.vars["L"]).reshape(-1))
        sid = a["slate_id"]
        k = tm.fresh("z", "I", (ZERO, N))
        D.hyp(eq(app("nunique", tm.bind_var("lam", N, k, sid.at(k)), sort="I"), n))
        D.hyp(and_(no_dup(N, sid, a["position"]), decreasing_in_slate(N, sid, a["position"], a["pscore_cascade"]), decreasing_in_slate(N, sid, a["position"], a["evaluation_policy_pscore_cascade"])))
        D.hyp(Forall(N, lambda m: eq(Sum(A, lambda c: a["evaluation_policy_action_dist"].at(m * A + c)), ONE)))
        B = D.int("B", lo=1, gen=lambda r, e: r.randint(1, 5))
        seed = D.int("seed", lo=0, gen=lambda r, e: r.randint(0, 1000))
        al = D.real("alpha", lo=0, hi=1)
        w = lambda m: a["evaluation_policy_pscore_cascade"].at(m) / a["pscore_cascade"].at(m)

        first = lambda m: eq(term(Sym(m, "int") % Sym(L, "int")), ZERO)

        def per(m):
            base = Sum(A, lambda c: a["evaluation_policy_action_dist"].at(m * A + c) * a["q_hat"].at(m * A + c))
            return w(m) * (a["reward"].at(m) - a["q_hat"].at(m * A + a["action"].at(m))) + ite(first(m), ONE, w(m - ONE)) * base

        def body(rt):
            e = rt.new(S.SlateCascadeDoublyRobust, len_list=Sym(L, "int"), n_unique_action=Sym(A, "int"))
            u = slates(rt, a["slate_id"])
            rt.check_eq("estimate_policy_value", rt.call(e.estimate_policy_value, **a), Sum(N, per) / n)
            tot = lambda g: Sum(N, lambda m: ite(eq(a["slate_id"].at(m), u.at(g)), per(m), ZERO))
            r = rt.call(e.estimate_interval, alpha=al, n_bootstrap_samples=B, random_state=seed, **a)
            rt.check_eq("estimate_interval resamples the slates", r, ci_spec(rt, boot_means(rt, tot, term(u.shape[0]), B, seed), al, B))
            inputs_unchanged(rt, *a.values())
        return body
    nochk = tuple(k for k in CHK)
    return Unit("SlateCascadeDoublyRobust", build, contracts=nochk, samples=25)


def cdr_args(D):
    return None


def units():
    us = slate_validation_units()
    w = est_w
    ips = lambda a, ps, n, i: a["reward"].at(i) * w(a, ps, i)
    sn = lambda a, ps, n, i: a["reward"].at(i) * w(a, ps, i) / mean(n, lambda j: w(a, ps, j))
    same_pos = lambda a, i, j: iv(eq(a["position"].at(j), a["position"].at(i)))
    snp = lambda a, ps, n, i: a["reward"].at(i) * w(a, ps, i) / (Sum(n, lambda j: same_pos(a, i, j) * w(a, ps, j)) / Sum(n, lambda j: same_pos(a, i, j)))
    some = lambda a, ps, n: lt(ZERO, Sum(n, lambda j: w(a, ps, j)))
    some_p = lambda a, ps, n: Forall(n, lambda i: lt(ZERO, Sum(n, lambda j: same_pos(a, i, j) * w(a, ps, j))))
    us += [value_unit(S.SlateStandardIPS, "check_sips_inputs", ips), value_unit(S.SlateIndependentIPS, "check_iips_inputs", ips),
           value_unit(S.SlateRewardInteractionIPS, "check_rips_inputs", ips),
           value_unit(S.SelfNormalizedSlateStandardIPS, "check_sips_inputs", sn, some),
           value_unit(S.SelfNormalizedSlateIndependentIPS, "check_iips_inputs", snp, some_p),
           value_unit(S.SelfNormalizedSlateRewardInteractionIPS, "check_rips_inputs", snp, some_p),
           cascade_unit()]
    return us
