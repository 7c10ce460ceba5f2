"""Direct-method and doubly-robust estimators compute their defining formulas, and reduce to one another."""
from .common import *
import obp.ope.estimators as E
from .contracts import CONTRACTS, VALIDATION, validation_units


def dm(d, i):
    return Sum(d["A"], lambda a: d["q"].at(i, a, pos_at(d, i)) * d["action_dist"].at(i, a, pos_at(d, i)))


def resid(d, i):
    return d["reward"].at(i) - d["q"].at(i, d["action"].at(i), pos_at(d, i))


def w_dr(d, i, l): return weight(d, i) if l is None else min2(weight(d, i), l)
def w_sn(d, i, l): return weight(d, i) / mean(d["n"], lambda j: weight(d, j))
def w_switch(d, i, l): return weight(d, i) if l is None else weight(d, i) * iv(le(weight(d, i), l))
def w_os(d, i, l): return weight(d, i) if l is None else l * weight(d, i) / (weight(d, i) ** 2 + l)
def w_sg(d, i, l): return weight(d, i) / (ONE - l + l * weight(d, i))
def w_0(d, i, l): return ZERO


NEEDS_POS = (E.SelfNormalizedDoublyRobust, E.SwitchDoublyRobust, E.DoublyRobustWithShrinkage, E.SubGaussianDoublyRobust)


def make(cls, name, wt, lam=None, multi_pos=True, est=False, extra=None, kind="float"):
    def build(D):
        d = ope_inputs(D, q=True, multi_pos=multi_pos, reward_kind=kind)
        n = d["n"]
        kw = {}
        l = None
        if lam == "nonneg":
            l = D.real("lam", lo=0)
        elif lam == "pos":
            l = D.real("lam", lo=0, lo_strict=True)
        elif lam == "unit":
            l = D.real("lam", lo=0, hi=1)
        elif lam == "inf":
            kw["lambda_"] = np.inf
        if l is not None:
            kw["lambda_"] = l
        if est:
            d["other"] = D.array("wrong_pscore", (n,), lo=0, lo_strict=True, hi=1)
            kw["use_estimated_pscore"] = True
        lt_ = term(l) if l is not None else None
        if extra:
            extra(D, d, lt_)
        f = lambda i: dm(d, i) + wt(d, i, lt_) * resid(d, i)

        def body(rt):
            est_ = rt.new(cls, **kw)
            args = dict(reward=d["reward"], action=d["action"], action_dist=d["action_dist"], position=d["position"],
                        estimated_rewards_by_reg_model=d["q"])
            if cls is not E.DirectMethod:
                args["estimated_pscore" if est else "pscore"] = d["pscore"]
                if est:
                    args["pscore"] = d["other"]
            v = rt.call(est_.estimate_policy_value, **args)
            rt.check_eq("estimate_policy_value = mean of per-round estimates", v, mean(n, f))
            a2 = {k: v for k, v in args.items() if k not in ("estimated_pscore",)}
            if est:
                a2["pscore"] = d["pscore"]
            if hasattr(cls, "_estimate_round_rewards") and (d["position"] is not None or cls not in NEEDS_POS):
                rr = rt.call(est_._estimate_round_rewards, **a2)
                rt.check_eq("_estimate_round_rewards", rr, SArr((n,), f))
            inputs_unchanged(rt, *[x for x in args.values()])
        return body
    return Unit(name, build, contracts=VALIDATION)


def reductions():
    """algebraic identities between the estimators, on the code's own results"""
    us = []

    def build(D):
        d = ope_inputs(D, q=True)
        n = d["n"]
        lam = D.real("lam", lo=0)
        zero = SArr(d["q"].axes, lambda i, a, l: ZERO)

        def body(rt):
            base = dict(reward=d["reward"], action=d["action"], action_dist=d["action_dist"], position=d["position"], pscore=d["pscore"])
            q = dict(base, estimated_rewards_by_reg_model=d["q"])
            z = dict(base, estimated_rewards_by_reg_model=zero)
            ev = lambda cls, args, **kw: rt.call(rt.new(cls, **kw).estimate_policy_value, **args)
            ipw = ev(E.InverseProbabilityWeighting, base)
            dr = ev(E.DoublyRobust, q)
            dm_ = ev(E.DirectMethod, q)
            rt.check_eq("DR with a zero reward model is IPW", ev(E.DoublyRobust, z), ipw)
            rt.check_eq("clipped DR with a zero reward model is clipped IPW", ev(E.DoublyRobust, z, lambda_=lam), ev(E.InverseProbabilityWeighting, base, lambda_=lam))
            rt.check_eq("clipped at 0, DR is DM", ev(E.DoublyRobust, q, lambda_=0.0), dm_)
            rt.check_eq("Switch-DR with an infinite threshold is DR", ev(E.SwitchDoublyRobust, q), dr)
            rt.check_eq("DRos with infinite lambda is DR", ev(E.DoublyRobustWithShrinkage, q, lambda_=np.inf), dr)
            rt.check_eq("SG-DR with lambda 0 is DR", ev(E.SubGaussianDoublyRobust, q, lambda_=0.0), dr)
            rt.check_eq("SG-IPW with lambda 0 is IPW", ev(E.SubGaussianInverseProbabilityWeighting, base, lambda_=0.0), ipw)
        return body
    us.append(Unit("reductions between estimators", build, contracts=VALIDATION))

    def build2(D):
        d = ope_inputs(D, q=True)
        D.hyp(Forall(d["n"], lambda i: lt(ZERO, pi_at(d, i))))

        def body(rt):
            base = dict(reward=d["reward"], action=d["action"], action_dist=d["action_dist"], position=d["position"], pscore=d["pscore"])
            q = dict(base, estimated_rewards_by_reg_model=d["q"])
            ev = lambda cls, args, **kw: rt.call(rt.new(cls, **kw).estimate_policy_value, **args)
            dm_ = ev(E.DirectMethod, q)
            rt.check_eq("DRos with lambda 0 is DM", ev(E.DoublyRobustWithShrinkage, q, lambda_=0.0), dm_)
            rt.check_eq("Switch-DR with threshold 0 is DM", ev(E.SwitchDoublyRobust, q, lambda_=0.0), dm_)
        return body
    us.append(Unit("reductions to DM on supported data", build2, contracts=VALIDATION))

    def build3(D):
        d = ope_inputs(D, q=True)
        D.hyp(lt(ZERO, Sum(d["n"], lambda i: weight(d, i))))
        perfect = SArr((d["n"],), lambda i: d["q"].at(i, d["action"].at(i), pos_at(d, i)))

        def body(rt):
            q = dict(reward=perfect, action=d["action"], action_dist=d["action_dist"], position=d["position"], pscore=d["pscore"], estimated_rewards_by_reg_model=d["q"])
            ev = lambda cls, args, **kw: rt.call(rt.new(cls, **kw).estimate_policy_value, **args)
            dm_ = ev(E.DirectMethod, q)
            for cls in (E.DoublyRobust, E.SelfNormalizedDoublyRobust, E.SwitchDoublyRobust):
                rt.check_eq(f"{cls.__name__} with a perfect reward model is DM", ev(cls, q), dm_)
        return body
    us.append(Unit("perfect reward model", build3, contracts=VALIDATION))
    return us


def units():
    us = []
    some_support = lambda D, d, l: D.hyp(lt(ZERO, Sum(d["n"], lambda i: weight(d, i))))
    sg_ok = lambda D, d, l: D.hyp(Forall(d["n"], lambda i: ne(ONE - l + l * weight(d, i), ZERO)))
    for mp in (True, False):
        s = "" if mp else ", no positions"
        us += [make(E.DirectMethod, "DM" + s, w_0, None, mp),
               make(E.DoublyRobust, "DR default" + s, w_dr, None, mp),
               make(E.DoublyRobust, "DR with clipping" + s, w_dr, "nonneg", mp),
               make(E.SelfNormalizedDoublyRobust, "self-normalised DR" + s, w_sn, None, mp, extra=some_support),
               make(E.SwitchDoublyRobust, "Switch-DR" + s, w_switch, "nonneg", mp),
               make(E.SwitchDoublyRobust, "Switch-DR default" + s, w_switch, None, mp),
               make(E.DoublyRobustWithShrinkage, "DRos" + s, w_os, "pos", mp),
               make(E.DoublyRobustWithShrinkage, "DRos infinite" + s, w_os, "inf", mp),
               make(E.SubGaussianDoublyRobust, "SG-DR" + s, w_sg, "unit", mp, extra=sg_ok)]
    for cls, nm_, wt, lam, ex in ((E.DoublyRobust, "DR", w_dr, "nonneg", None), (E.SelfNormalizedDoublyRobust, "SNDR", w_sn, None, some_support),
                                  (E.SwitchDoublyRobust, "Switch-DR", w_switch, "nonneg", None), (E.DoublyRobustWithShrinkage, "DRos", w_os, "pos", None),
                                  (E.SubGaussianDoublyRobust, "SG-DR", w_sg, "unit", sg_ok)):
        us.append(make(cls, nm_ + " with estimated propensities", wt, lam, True, est=True, extra=ex))
        us.append(make(cls, nm_ + " with integer rewards", wt, lam, True, extra=ex, kind="int"))
    return us + reductions() + validation_units()
