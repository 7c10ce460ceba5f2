"""Importance-weighting estimators compute their defining formulas."""
from .common import *
import obp.ope.estimators as E
from .contracts import CONTRACTS, VALIDATION, validation_units

CHK = VALIDATION

ASSUMPTIONS = []


def clip(w, lam):
    return w if lam is None else min2(w, lam)


def make(cls, name, formula, lam=None, multi_pos=True, est=False, weights=False, extra=None, kind="float"):
    """formula(d, i, lam) = per-round estimate"""
    def build(D):
        d = ope_inputs(D, multi_pos=multi_pos, reward_kind=kind)
        n = d["n"]
        kw = {}
        l = None
        if lam == "nonneg":
            l = D.real("lam", lo=0)
        elif lam == "unit":
            l = D.real("lam", lo=0, hi=1)
        if l is not None:
            kw["lambda_"] = l
        if est:
            d["other"] = D.array("wrong_pscore", (n,), lo=0, lo_strict=True, hi=1)
            kw["use_estimated_pscore"] = True
        if weights:
            d["iw"] = D.array("iw", (n,), lo=0)
        lt_ = term(l) if l is not None else None
        if extra:
            extra(D, d, lt_)

        def body(rt):
            est_ = rt.new(cls, **kw)
            args = dict(reward=d["reward"], action=d["action"], action_dist=d["action_dist"], position=d["position"])
            if weights:
                args["estimated_importance_weights"] = d["iw"]
            elif cls is not E.ReplayMethod:
                args["estimated_pscore" if est else "pscore"] = d["pscore"]
                if est:
                    args["pscore"] = d["other"]
            v = rt.call(est_.estimate_policy_value, **args)
            want = mean(n, lambda i: formula(d, i, lt_))
            rt.check_eq("estimate_policy_value = mean of per-round estimates", v, want)
            a2 = {k: v for k, v in args.items() if k not in ("estimated_pscore",)}
            if est:
                a2["pscore"] = d["pscore"]
            if hasattr(cls, "_estimate_round_rewards") and (d["position"] is not None or cls is not E.SubGaussianInverseProbabilityWeighting):
                rr = rt.call(est_._estimate_round_rewards, **a2)
                rt.check_eq("_estimate_round_rewards", rr, SArr((n,), lambda i: formula(d, i, lt_)))
            inputs_unchanged(rt, *[x for x in args.values()])
        return body
    return Unit(name, build, contracts=CHK)


def units():
    us = []
    w = weight
    ipw = lambda d, i, l: d["reward"].at(i) * clip(w(d, i), l)
    snipw = lambda d, i, l: d["reward"].at(i) * w(d, i) / mean(d["n"], lambda j: w(d, j))
    sg = lambda d, i, l: d["reward"].at(i) * w(d, i) / (ONE - l + l * w(d, i))
    match = lambda d, i: iv(eq(pi_at(d, i), ONE))
    nmatch = lambda d: Sum(d["n"], lambda j: match(d, j))
    rm = lambda d, i, l: ite(eq(nmatch(d), ZERO), ZERO, match(d, i) * d["reward"].at(i) / mean(d["n"], lambda j: match(d, j)))
    bw = lambda d, i, l: clip(d["iw"].at(i), l) * d["reward"].at(i) / mean(d["n"], lambda j: clip(d["iw"].at(j), l))
    some_support = lambda D, d, l: D.hyp(lt(ZERO, Sum(d["n"], lambda i: w(d, i))))
    some_support_b = lambda D, d, l: D.hyp(lt(ZERO, Sum(d["n"], lambda i: clip(d["iw"].at(i), l))))
    sg_ok = lambda D, d, l: D.hyp(Forall(d["n"], lambda i: ne(ONE - l + l * w(d, i), ZERO)))
    for mp in (True, False):
        s = "" if mp else ", no positions"
        us += [make(E.InverseProbabilityWeighting, "IPW with clipping" + s, ipw, "nonneg", mp),
               make(E.InverseProbabilityWeighting, "IPW default (no clipping)" + s, ipw, None, mp),
               make(E.SelfNormalizedInverseProbabilityWeighting, "self-normalised IPW" + s, snipw, None, mp, extra=some_support),
               make(E.SubGaussianInverseProbabilityWeighting, "sub-Gaussian IPW" + s, sg, "unit", mp, extra=sg_ok),
               make(E.ReplayMethod, "replay method" + s, rm, None, mp),
               make(E.BalancedInverseProbabilityWeighting, "balanced IPW" + s, bw, "nonneg", mp, weights=True, extra=some_support_b),
               make(E.BalancedInverseProbabilityWeighting, "balanced IPW default" + s, bw, None, mp, weights=True, extra=some_support_b)]
    us += [make(E.InverseProbabilityWeighting, "IPW with estimated propensities", ipw, "nonneg", True, est=True),
           make(E.SelfNormalizedInverseProbabilityWeighting, "SNIPW with estimated propensities", snipw, None, True, est=True, extra=some_support),
           make(E.SubGaussianInverseProbabilityWeighting, "SG-IPW with estimated propensities", sg, "unit", True, est=True, extra=sg_ok)]
    us += [make(E.InverseProbabilityWeighting, "IPW with integer rewards", ipw, "nonneg", True, kind="int"),
           make(E.ReplayMethod, "replay method with integer rewards", rm, None, True, kind="int"),
           make(E.SelfNormalizedInverseProbabilityWeighting, "SNIPW with integer rewards", snipw, None, True, extra=some_support, kind="int"),
           make(E.BalancedInverseProbabilityWeighting, "balanced IPW with integer rewards", bw, "nonneg", True, weights=True, extra=some_support_b, kind="int")]
    return us + validation_units()
