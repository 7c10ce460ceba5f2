"""Input validation."""
from .common import *
from .contracts import *
from .contracts import CONTRACTS, VALIDATION
from . import contracts as C
import obp.ope.estimators as E
import obp.ope.estimators_multi as EM
import obp.ope.estimators_continuous as EC


def feedback(flags, kind="int"):
    def build(D):
        dm = Dims(D)
        A = D.dim("A", 1, 3)
        args = {"context": D.array("ctx", (dm.n, D.dim("dc", 1, 2))), "action": D.array("action", (dm.like(),), kind, gen=g_int(A)),
                "reward": D.array("reward", (dm.like(),))}
        if "expected_reward" in flags:
            args["expected_reward"] = D.array("er", (dm.like(), A))
        if "position" in flags:
            args["position"] = D.array("pos", (dm.like(),), "int", gen=g_int(2))
        if "pscore" in flags:
            args["pscore"] = D.array("pscore", (dm.like(),), gen=g_pos)
        if "action_context" in flags:
            args["action_context"] = D.array("ac", (term(D.int("A2", lo=1, gen=same_or(None, "A"))), D.dim("da", 1, 2)))

        def body(rt):
            same_outcome(rt, "check_bandit_feedback_inputs", lambda: C.spec_check_bandit_feedback_inputs(**args), lambda: rt.body(U.check_bandit_feedback_inputs, **args))
            inputs_unchanged(rt, *args.values())
        return body
    return Unit(f"check_bandit_feedback_inputs({'+'.join(flags)}{'' if kind == 'int' else ', ' + kind})", build, samples=25)


def multi(flags, kind="int"):
    def build(D):
        dm = Dims(D)
        n, A = dm.n, D.dim("A", 1, 3)
        args = {"action_dist": D.array("pi", (n, A, ONE), gen=g_dist), "action": D.array("action", (dm.like(),), "int", gen=g_int(A)),
                "reward": D.array("reward", (dm.like(),)), "stratum_idx": D.array("stratum", (dm.like(),), kind, gen=g_int(3))}
        if "pscore" in flags:
            args["pscore"] = D.array("pscore", (dm.like(),), gen=g_pos)
        if "q" in flags:
            args["estimated_rewards_by_reg_model"] = D.array("q", (dm.like(), term(D.int("qA", lo=1, gen=same_or(None, "A"))), ONE))

        def body(rt):
            same_outcome(rt, "check_multi_loggers_ope_inputs", lambda: C.spec_check_multi_loggers_ope_inputs(**args), lambda: rt.body(U.check_multi_loggers_ope_inputs, **args))
            inputs_unchanged(rt, *args.values())
        return body
    return Unit(f"check_multi_loggers_ope_inputs({'+'.join(flags)}{'' if kind == 'int' else ', ' + kind})", build, samples=25, contracts=("obp.utils:check_ope_inputs",))


def cont_feedback(flags):
    def build(D):
        dm = Dims(D)
        args = {"context": D.array("ctx", (dm.n, D.dim("dc", 1, 2))), "action_by_behavior_policy": D.array("ab", (dm.like(),)), "reward": D.array("reward", (dm.like(),))}
        if "expected_reward" in flags:
            args["expected_reward"] = D.array("er", (dm.like(),))
        if "pscore" in flags:
            args["pscore"] = D.array("pscore", (dm.like(),), gen=g_pos)

        def body(rt):
            same_outcome(rt, "check_continuous_bandit_feedback_inputs", lambda: C.spec_check_continuous_bandit_feedback_inputs(**args), lambda: rt.body(U.check_continuous_bandit_feedback_inputs, **args))
        return body
    return Unit(f"check_continuous_bandit_feedback_inputs({'+'.join(flags)})", build, samples=25)


def cont_ope(flags):
    def build(D):
        dm = Dims(D)
        args = {"action_by_evaluation_policy": D.array("ae", (dm.n,))}
        if "action" in flags:
            args["action_by_behavior_policy"] = D.array("ab", (dm.like(),))
        if "reward" in flags:
            args["reward"] = D.array("reward", (dm.like(),))
        if "pscore" in flags:
            args["pscore"] = D.array("pscore", (dm.like(),), gen=g_pos)
        if "q" in flags:
            args["estimated_rewards_by_reg_model"] = D.array("q", (dm.like(),))

        def body(rt):
            same_outcome(rt, "check_continuous_ope_inputs", lambda: C.spec_check_continuous_ope_inputs(**args), lambda: rt.body(U.check_continuous_ope_inputs, **args))
        return body
    return Unit(f"check_continuous_ope_inputs({'+'.join(flags)})", build, samples=25)


def ranks():
    """every array argument of the wrong rank is rejected"""
    us = []
    spec = {
        "check_bandit_feedback_inputs": dict(context=2, action=(1, "int"), reward=1, expected_reward=2, position=(1, "int"), pscore=1, action_context=2),
        "check_continuous_bandit_feedback_inputs": dict(context=2, action_by_behavior_policy=1, reward=1, expected_reward=1, pscore=1),
        "check_continuous_ope_inputs": dict(action_by_evaluation_policy=1, action_by_behavior_policy=1, reward=1, pscore=1, estimated_rewards_by_reg_model=1),
    }
    for fn, args in spec.items():
        def build(D, fn=fn, args=args):
            n, k = D.dim("n", 1, 3), D.dim("k", 1, 3)
            good, bad = {}, {}
            for a, r in args.items():
                kind = "float"
                if isinstance(r, tuple):
                    r, kind = r
                kw = dict(lo=0, hiT=ONE) if kind == "int" else dict(lo=0, lo_strict=True)
                good[a] = D.array("g_" + a, (n, k)[:r], kind, **kw)
                bad[a] = D.array("b_" + a, (n, k)[:3 - r], kind, **kw)

            def body(rt):
                same_outcome(rt, "well-formed", lambda: None, lambda: rt.body(getattr(U, fn), **good))
                for a in args:
                    same_outcome(rt, f"rank of {a}", raise_value, lambda: rt.body(getattr(U, fn), **dict(good, **{a: bad[a]})))
                    same_outcome(rt, f"type of {a}", raise_value, lambda: rt.body(getattr(U, fn), **dict(good, **{a: [1.0, 2.0]})))
            return body
        us.append(Unit(f"{fn}: wrong ranks and types", build, samples=4))
    return us


def estimator_rejects(cls, need_ps=True, q=False, iw=False, est=False):
    """the public entry points refuse exactly what the validation contract refuses"""
    def build(D):
        dm = Dims(D)
        n, A, L = dm.n, D.dim("A", 1, 3), D.dim("L", 1, 2)
        a = {"action_dist": D.array("pi", (n, A, L), gen=g_dist)}
        act = D.array("action", (n,), "int", gen=g_int(A))
        rew = D.array("reward", (dm.like(),))
        pos = D.array("pos", (n,), "int", gen=g_int(L))
        kw = {}
        if cls is not E.DirectMethod:
            a.update(action=act, reward=rew)
        a["position"] = pos
        if need_ps:
            a["pscore"] = D.array("pscore", (n,), gen=g_pos)
        if q:
            a["estimated_rewards_by_reg_model"] = D.array("q", (n, term(D.int("qA", lo=1, gen=same_or(None, "A"))), L))
        if iw:
            a["estimated_importance_weights"] = D.array("iw", (n,), gen=g_pos)
        call = dict(a)
        if est:
            kw["use_estimated_pscore"] = True
            call["estimated_pscore"] = call.pop("pscore")

        def body(rt):
            e = rt.new(cls, **kw)
            ok = spec_outcome(rt, lambda: C.spec_check_ope_inputs(**a))
            for m in ("estimate_policy_value", "estimate_interval"):
                extra = {} if m == "estimate_policy_value" else dict(n_bootstrap_samples=2, random_state=0)
                o = rt.outcome(lambda: rt.call(getattr(e, m), **call, **extra))
                if not ok.returned:
                    rt.check(f"{m}: ill-formed input rejected", o.raised(ValueError))
                else:
                    rt.check(f"{m}: well-formed input accepted", o.returned)
        return body
    return Unit(f"{cls.__name__}{' (estimated pscore)' if est else ''} validates its inputs", build, samples=25, contracts=VALIDATION)


def missing_pscore(cls, q):
    def build(D):
        d = ope_inputs(D, q=q)

        def body(rt):
            base = {k: d[k] for k in ("reward", "action", "action_dist", "position")}
            if q:
                base["estimated_rewards_by_reg_model"] = d["q"]
            for flag, given in ((False, "estimated_pscore"), (True, "pscore")):
                e = rt.new(cls, use_estimated_pscore=flag)
                for m in ("estimate_policy_value", "estimate_interval"):
                    o = rt.outcome(lambda: rt.call(getattr(e, m), **base, **{given: d["pscore"]}))
                    rt.check(f"{m}: propensities missing (use_estimated_pscore={flag})", o.raised(ValueError))
        return body
    return Unit(f"{cls.__name__} needs the propensities it is configured for", build, samples=3, contracts=VALIDATION)


def hyper(cls, hi=None, flag=True):
    """lambda_ is validated at construction"""
    def build(D):
        lam = D.real("lam", gen=lambda r, e: r.choice([-1.0, -0.1, 0.0, 0.5, 1.0, 1.5, 10.0]))

        def body(rt):
            l = term(lam)
            bad = lt(l, ZERO) if hi is None else or_(lt(l, ZERO), lt(lift(hi), l))
            o = rt.outcome(lambda: rt.new(cls, lambda_=lam))
            if rt.decide(bad):
                rt.check("out-of-range lambda_ rejected", o.raised(ValueError))
            else:
                rt.check("in-range lambda_ accepted", o.returned)
                if o.returned:
                    rt.check_eq("lambda_ stored", rt.get(o.value, "lambda_"), lam)
            rt.check("nan rejected", rt.outcome(lambda: rt.new(cls, lambda_=float("nan"))).raised(ValueError))
            for v in ("1", None, [1.0]):
                rt.check("wrong type rejected", rt.outcome(lambda: rt.new(cls, lambda_=v)).raised(TypeError))
            if flag:
                for v in (1, "True", None):
                    rt.check("flag must be boolean", rt.outcome(lambda: rt.new(cls, use_estimated_pscore=v)).raised(TypeError))
        return body
    return Unit(f"{cls.__name__} hyperparameter validation", build, samples=8)


def units():
    us = validation_units()
    F = [(), ("expected_reward",), ("pscore",), ("position",), ("action_context",), ("expected_reward", "pscore", "position"),
         ("pscore", "position", "action_context"), ("expected_reward", "pscore", "position", "action_context")]
    us += [feedback(f) for f in F] + [feedback((), "float"), feedback(("expected_reward",), "float")]
    us += [multi(()), multi(("pscore",)), multi(("pscore", "q")), multi((), "float")]
    us += [cont_feedback(f) for f in ((), ("expected_reward",), ("pscore",), ("expected_reward", "pscore"))]
    us += [cont_ope(f) for f in ((), ("action", "reward"), ("action", "reward", "pscore"), ("q",), ("action", "reward", "pscore", "q"), ("action",), ("reward",))]
    us += ranks()
    ps = [E.InverseProbabilityWeighting, E.SelfNormalizedInverseProbabilityWeighting, E.SubGaussianInverseProbabilityWeighting]
    dr = [E.DoublyRobust, E.SelfNormalizedDoublyRobust, E.SwitchDoublyRobust, E.DoublyRobustWithShrinkage, E.SubGaussianDoublyRobust]
    us += [estimator_rejects(c) for c in ps] + [estimator_rejects(c, q=True) for c in dr]
    us += [estimator_rejects(c, est=True) for c in ps[:1]] + [estimator_rejects(c, q=True, est=True) for c in dr[:1]]
    us += [estimator_rejects(E.ReplayMethod, need_ps=False), estimator_rejects(E.DirectMethod, need_ps=False, q=True),
           estimator_rejects(E.BalancedInverseProbabilityWeighting, need_ps=False, iw=True)]
    us += [missing_pscore(c, False) for c in ps] + [missing_pscore(c, True) for c in dr]
    us += [hyper(c) for c in (E.InverseProbabilityWeighting, E.DoublyRobust, E.SwitchDoublyRobust, E.DoublyRobustWithShrinkage)]
    us += [hyper(c, 1) for c in (E.SubGaussianInverseProbabilityWeighting, E.SubGaussianDoublyRobust)]
    us += [hyper(E.BalancedInverseProbabilityWeighting, flag=False)]
    return us
