"""Confidence intervals."""
from .common import *
from .boot import *
from .contracts import CONTRACTS, VALIDATION
import obp.ope.estimators as E
from . import p01, p02


def interval(cls, mk_formula, kw_of, q=False, iw=False, hyp=None):
    def build(D):
        d = ope_inputs(D, q=q)
        n = d["n"]
        if iw:
            d["iw"] = D.array("iw", (n,), lo=0)
        lam, kw = kw_of(D)
        if hyp:
            hyp(D, d, lam)
        B = D.int("B", lo=1, gen=lambda r, e: r.randint(1, 5))
        seed = D.int("seed", lo=0, gen=lambda r, e: r.randint(0, 1000))
        al = D.real("alpha", lo=0, hi=1)

        def body(rt):
            e = rt.new(cls, **kw)
            args = dict(action_dist=d["action_dist"], position=d["position"])
            if cls is not E.DirectMethod:
                args.update(reward=d["reward"], action=d["action"])
            if iw:
                args["estimated_importance_weights"] = d["iw"]
            elif cls not in (E.DirectMethod, E.ReplayMethod):
                args["pscore"] = d["pscore"]
            if q:
                args["estimated_rewards_by_reg_model"] = d["q"]
            r = rt.call(e.estimate_interval, alpha=al, n_bootstrap_samples=B, random_state=seed, **args)
            per = lambda i: mk_formula(d, i, lam)
            rt.check_eq("estimate_interval", r, ci_spec(rt, boot_means(rt, per, n, B, seed), al, B))
            inputs_unchanged(rt, *args.values())
        return body
    return Unit(f"{cls.__name__}.estimate_interval", build, samples=12, contracts=VALIDATION)


def units():
    us = ci_contract_units()
    w = weight
    none = lambda D: (None, {})

    def lam(lo_strict=False, hi=None):
        def f(D):
            l = D.real("lam", lo=0, lo_strict=lo_strict, hi=hi)
            return term(l), {"lambda_": l}
        return f
    match = lambda d, i: iv(eq(pi_at(d, i), ONE))
    nmatch = lambda d: Sum(d["n"], lambda j: match(d, j))
    support = lambda D, d, l: D.hyp(lt(ZERO, Sum(d["n"], lambda i: w(d, i))))
    sg_ok = lambda D, d, l: D.hyp(Forall(d["n"], lambda i: ne(ONE - l + l * w(d, i), ZERO)))
    us += [
        interval(E.ReplayMethod, lambda d, i, l: ite(eq(nmatch(d), ZERO), ZERO, match(d, i) * d["reward"].at(i) / mean(d["n"], lambda j: match(d, j))), none),
        interval(E.InverseProbabilityWeighting, lambda d, i, l: d["reward"].at(i) * min2(w(d, i), l), lam()),
        interval(E.SelfNormalizedInverseProbabilityWeighting, lambda d, i, l: d["reward"].at(i) * w(d, i) / mean(d["n"], lambda j: w(d, j)), none, hyp=support),
        interval(E.SubGaussianInverseProbabilityWeighting, lambda d, i, l: d["reward"].at(i) * w(d, i) / (ONE - l + l * w(d, i)), lam(hi=1), hyp=sg_ok),
        interval(E.BalancedInverseProbabilityWeighting, lambda d, i, l: d["reward"].at(i) * min2(d["iw"].at(i), l) / mean(d["n"], lambda j: min2(d["iw"].at(j), l)), lam(),
                 iw=True, hyp=lambda D, d, l: D.hyp(lt(ZERO, Sum(d["n"], lambda i: min2(d["iw"].at(i), l))))),
    ]
    for cls, wt, kw, h in ((E.DirectMethod, p02.w_0, none, None), (E.DoublyRobust, p02.w_dr, lam(), None), (E.SelfNormalizedDoublyRobust, p02.w_sn, none, support),
                           (E.SwitchDoublyRobust, p02.w_switch, lam(), None), (E.DoublyRobustWithShrinkage, p02.w_os, lam(True), None),
                           (E.SubGaussianDoublyRobust, p02.w_sg, lam(hi=1), sg_ok)):
        us.append(interval(cls, lambda d, i, l, wt=wt: p02.dm(d, i) + wt(d, i, l) * p02.resid(d, i), kw, q=True, hyp=h))
    return us
