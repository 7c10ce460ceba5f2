"""The evaluation classes hand every estimator exactly the logged data and its own model inputs, and report its values faithfully."""
from .common import *
from .contracts import CONTRACTS, VALIDATION
import obp.ope.estimators as E
import obp.ope.estimators_multi as EM
import obp.ope.estimators_continuous as EC
import obp.ope.estimators_slate as ES
from obp.ope.meta import OffPolicyEvaluation as OPE
from obp.ope.meta_multi import MultiLoggersOffPolicyEvaluation as MOPE
from obp.ope.meta_continuous import ContinuousOffPolicyEvaluation as COPE
from obp.ope.meta_slate import SlateOffPolicyEvaluation as SOPE


class Probe:
    """an arbitrary estimator: records what it is given, returns arbitrary values"""
    _shimclass_ = True

    def __init__(self, name, value, interval=None):
        self.estimator_name, self.value, self.interval = name, value, interval
        self.calls, self.icalls = [], []
        self.rt = None

    def estimate_policy_value(self, **kw):
        self.calls.append(kw)
        return self.rt.mat(self.value) if self.rt.concrete else self.value

    def estimate_interval(self, **kw):
        self.icalls.append(kw)
        return {k: (self.rt.mat(v) if self.rt.concrete else v) for k, v in self.interval.items()}


def probes(D, rt_holder=None):
    ps = [Probe(nm_, D.real(f"v_{nm_}"), {"mean": D.real(f"m_{nm_}"), "lo": D.real(f"lo_{nm_}"), "hi": D.real(f"hi_{nm_}")}) for nm_ in ("a", "b", "c")]
    return ps


def arm(rt, ps):
    for p in ps:
        p.rt, p.calls, p.icalls = rt, [], []


def same(rt, name, got, want):
    if want is None:
        rt.check(name, got is None)
    elif isinstance(want, SArr):
        rt.check_eq(name, got, want)
    elif is_symbolic(want):
        rt.check_eq(name, got, want)
    else:
        rt.check(name, got == want)


def frame(rt, df):
    return df.to_dict() if hasattr(df, "to_dict") else df


def is_nan(x):
    return isinstance(x, float) and x != x


def dims3(D): return D.dim("n", 1, 4), D.dim("A", 1, 3), D.dim("L", 1, 2)


def log_single(D, with_ps=True):
    n, A, L = dims3(D)
    dx = D.dim("dx", 1, 2)
    fb = dict(n_rounds=Sym(n, "int"), n_actions=Sym(A, "int"), context=D.array("context", (n, dx)), action=D.array("action", (n,), "int", lo=0, hiT=A), position=D.array("position", (n,), "int", lo=0, hiT=L),
              reward=D.array("reward", (n,)))
    if with_ps:
        fb["pscore"] = D.array("pscore", (n,), lo=0, lo_strict=True, hi=1)
    return n, A, L, fb


OPT = {"estimated_rewards_by_reg_model": lambda n, A, L: (n, A, L), "estimated_pscore": lambda n, A, L: (n,), "estimated_importance_weights": lambda n, A, L: (n,),
       "action_embed": lambda n, A, L: (n, num(2)), "pi_b": lambda n, A, L: (n, A, L), "p_e_a": lambda n, A, L: (A, num(3), num(2))}


def expected_metric(v, g, metric):
    return (v - g) ** 2 if metric == "se" else abs_((v - g) / g)


def reporting(rt, ope, ps, kw, reward_value, extra_checks=None, D_vals=None):
    g, alpha, B, seed = D_vals
    vals = {p.estimator_name: term(p.value) for p in ps}
    rt.check_eq("estimate_policy_values", rt.call(ope.estimate_policy_values, **kw), vals)
    ci = dict(alpha=alpha, n_bootstrap_samples=B, random_state=seed)
    rt.check_eq("estimate_intervals", rt.call(ope.estimate_intervals, **ci, **kw), {p.estimator_name: {k: term(v) for k, v in p.interval.items()} for p in ps})
    for p in ps:
        rt.check("each estimator asked once for an interval", len(p.icalls) == 1)
        for k, v in ci.items():
            same(rt, f"interval argument {k} of {p.estimator_name}", p.icalls[0].get(k), v)
    for metric in ("se", "relative-ee"):
        want = {n_: expected_metric(v, term(g), metric) for n_, v in vals.items()}
        rt.check_eq(f"evaluate_performance_of_estimators {metric}", rt.call(ope.evaluate_performance_of_estimators, ground_truth_policy_value=g, metric=metric, **kw), want)
        df = frame(rt, rt.call(ope.summarize_estimators_comparison, ground_truth_policy_value=g, metric=metric, **kw))
        rt.check_eq(f"summarize_estimators_comparison {metric}", df, {metric: want})
    a, b = rt.call(ope.summarize_off_policy_estimates, **ci, **kw)
    a, b = frame(rt, a), frame(rt, b)
    rt.check("summary columns", sorted(a) == ["estimated_policy_value", "relative_estimated_policy_value"])
    rt.check_eq("summary values", a["estimated_policy_value"], vals)
    rel = a["relative_estimated_policy_value"]
    if decide(lt(ZERO, reward_value)):
        rt.check_eq("summary relative values", rel, {n_: v / reward_value for n_, v in vals.items()})
    else:
        rt.check("relative values undefined when the logged value is not positive", sorted(rel) == sorted(vals) and all(is_nan(x) for x in rel.values()))
    rt.check_eq("summary intervals", b, {k: {p.estimator_name: term(p.interval[k]) for p in ps} for k in ("mean", "lo", "hi")})


def d_vals(D):
    return (D.real("g", gen=lambda r, e: float(r.choice([0.5, -1.0, 2.0]))), D.real("alpha", lo=0, hi=1), D.int("B", lo=1, gen=lambda r, e: int(r.randint(1, 50))), D.int("seed", lo=0, gen=lambda r, e: int(r.randint(0, 50))))


def ope_unit(form):
    def build(D):
        n, A, L, fb = log_single(D, with_ps=form != "no pscore")
        ad = D.array("ad", (n, A, L), simplex=1)
        ps = probes(D)
        dv = d_vals(D)
        D.hyp(ne(term(dv[0]), ZERO))
        own = {}
        kw = {}
        for k, sh in OPT.items():
            if form == "none":
                own[k] = {p.estimator_name: None for p in ps}
                continue
            x = D.array("i_" + k, sh(n, A, L))
            y = D.array("j_" + k, sh(n, A, L))
            if form == "dict":
                kw[k] = {"a": x, "c": y}
                own[k] = {"a": x, "b": None, "c": y}
            elif form == "mixed":
                if list(OPT).index(k) % 2:
                    kw[k] = {"b": x}
                    own[k] = {"a": None, "b": x, "c": None}
                else:
                    kw[k] = y
                    own[k] = {"a": y, "b": y, "c": y}
            else:
                kw[k] = x
                own[k] = {"a": x, "b": x, "c": x}

        def body(rt):
            arm(rt, ps)
            o = rt.new(OPE, bandit_feedback=dict(fb), ope_estimators=list(ps))
            reporting(rt, o, ps, dict(action_dist=ad, **kw), mean(n, fb["reward"].at), D_vals=dv)
            for p in ps:
                for c in p.calls + p.icalls:
                    for k in ("action", "position", "reward", "context"):
                        same(rt, f"{k} given to {p.estimator_name}", c.get(k), fb[k])
                    same(rt, f"pscore given to {p.estimator_name}", c.get("pscore"), fb.get("pscore"))
                    same(rt, f"action_dist given to {p.estimator_name}", c.get("action_dist"), ad)
                    for k in OPT:
                        same(rt, f"{k} given to {p.estimator_name}", c.get(k), own[k][p.estimator_name])
        return body
    return Unit(f"OffPolicyEvaluation routing and reports, {form} inputs", build, samples=8)


def mope_unit(form):
    def build(D):
        n, A, L, fb = log_single(D)
        del fb["context"]
        if form != "no pscore":
            fb["pscore_avg"] = D.array("pscore_avg", (n,), lo=0, lo_strict=True, hi=1)
            fb["stratum_idx"] = D.array("stratum_idx", (n,), "int", lo=0, hi=3)
        else:
            del fb["pscore"]
        ad = D.array("ad", (n, A, L), simplex=1)
        ps = probes(D)
        dv = d_vals(D)
        D.hyp(ne(term(dv[0]), ZERO))
        own, kw = {}, {}
        for k, sh in (("estimated_rewards_by_reg_model", (n, A, L)), ("estimated_pscore", (n,)), ("estimated_pscore_avg", (n,))):
            if form == "none":
                own[k] = dict(a=None, b=None, c=None)
                continue
            x, y = D.array("i_" + k, sh), D.array("j_" + k, sh)
            kw[k], own[k] = ({"a": x, "c": y}, {"a": x, "b": None, "c": y}) if form == "dict" else (x, dict(a=x, b=x, c=x))

        def body(rt):
            arm(rt, ps)
            o = rt.new(MOPE, bandit_feedback=dict(fb), ope_estimators=list(ps))
            reporting(rt, o, ps, dict(action_dist=ad, **kw), mean(n, fb["reward"].at), D_vals=dv)
            for p in ps:
                for c in p.calls + p.icalls:
                    for k in ("action", "position", "reward", "pscore", "pscore_avg", "stratum_idx"):
                        same(rt, f"{k} given to {p.estimator_name}", c.get(k), fb.get(k))
                    same(rt, f"action_dist given to {p.estimator_name}", c.get("action_dist"), ad)
                    for k in own:
                        same(rt, f"{k} given to {p.estimator_name}", c.get(k), own[k][p.estimator_name])
        return body
    return Unit(f"MultiLoggersOffPolicyEvaluation routing and reports, {form} inputs", build, samples=8)


def cope_unit(form):
    def build(D):
        n = D.dim("n", 1, 4)
        fb = dict(action=D.array("action", (n,)), reward=D.array("reward", (n,)), pscore=D.array("pscore", (n,), lo=0, lo_strict=True))
        ae = D.array("ae", (n,))
        ps = probes(D)
        dv = d_vals(D)
        D.hyp(ne(term(dv[0]), ZERO))
        x, y = D.array("i_q", (n,)), D.array("j_q", (n,))
        kw, own = {"none": ({}, dict(a=None, b=None, c=None)), "dict": ({"estimated_rewards_by_reg_model": {"a": x, "c": y}}, {"a": x, "b": None, "c": y}),
                   "array": ({"estimated_rewards_by_reg_model": x}, dict(a=x, b=x, c=x))}[form]

        def body(rt):
            arm(rt, ps)
            o = rt.new(COPE, bandit_feedback=dict(fb), ope_estimators=list(ps))
            reporting(rt, o, ps, dict(action_by_evaluation_policy=ae, **kw), mean(n, fb["reward"].at), D_vals=dv)
            for p in ps:
                for c in p.calls + p.icalls:
                    for k, v in (("reward", fb["reward"]), ("action_by_behavior_policy", fb["action"]), ("pscore", fb["pscore"]), ("action_by_evaluation_policy", ae),
                                 ("estimated_rewards_by_reg_model", own[p.estimator_name])):
                        same(rt, f"{k} given to {p.estimator_name}", c.get(k), v)
        return body
    return Unit(f"ContinuousOffPolicyEvaluation routing and reports, {form} inputs", build, samples=8)


def sope_unit(form):
    def build(D):
        n = D.dim("n", 1, 5)
        S = D.dim("S", 1, 3)
        dx = D.dim("dx", 1, 2)
        fb = dict(slate_id=D.array("slate_id", (n,), "int", lo=0, hiT=S), context=D.array("context", (n, dx)), action=D.array("action", (n,), "int", lo=0),
                  reward=D.array("reward", (n,)), position=D.array("position", (n,), "int", lo=0))
        extra = ("pscore", "pscore_item_position", "pscore_cascade")
        for k in extra if form == "full" else extra[1:2]:
            fb[k] = D.array(k, (n,), lo=0, lo_strict=True, hi=1)
        names = ("evaluation_policy_pscore", "evaluation_policy_pscore_item_position", "evaluation_policy_pscore_cascade", "evaluation_policy_action_dist", "q_hat")
        kw = {k: D.array("e_" + k, (n,), lo=0) for k in (names if form == "full" else names[1:2])}
        ps = probes(D)
        dv = d_vals(D)
        D.hyp(ne(term(dv[0]), ZERO))

        def body(rt):
            arm(rt, ps)
            o = rt.new(SOPE, bandit_feedback=dict(fb), ope_estimators=list(ps))
            u = rt.np(np.unique, fb["slate_id"])
            nslate = term(to_arr(u).axes[0].n)
            reporting(rt, o, ps, dict(kw), Sum(n, fb["reward"].at) / nslate, D_vals=dv)
            for p in ps:
                for c in p.calls + p.icalls:
                    for k in ("slate_id", "action", "reward", "position") + extra:
                        same(rt, f"{k} given to {p.estimator_name}", c.get(k), fb.get(k))
                    for k in names:
                        same(rt, f"{k} given to {p.estimator_name}", c.get(k), kw.get(k))
        return body
    return Unit(f"SlateOffPolicyEvaluation routing and reports, {form} inputs", build, samples=8)


def error_units():
    us = []

    def build(D):
        n, A, L, fb = log_single(D)
        ad = D.array("ad", (n, A, L), simplex=1)
        ps = probes(D)
        g = D.real("g", gen=lambda r, e: float(r.choice([0.0, 0.5, -1.0])))
        n2, A2, L2 = D.dim("n2", 1, 4), D.dim("A2", 1, 3), D.dim("L2", 1, 2)
        q2 = D.array("q2", (n2, A2, L2))
        p2 = D.array("p2", (n2,), lo=0, lo_strict=True)

        def body(rt):
            arm(rt, ps)
            for k in ("action", "position", "reward", "context"):
                bad = {x: v for x, v in fb.items() if x != k}
                rt.check(f"feedback without {k} rejected", rt.outcome(lambda: rt.new(OPE, bandit_feedback=bad, ope_estimators=list(ps))).raised(RuntimeError))
            o = rt.new(OPE, bandit_feedback=dict(fb), ope_estimators=list(ps))

            def zero():
                if decide(eq(term(g), ZERO)):
                    raise_value()
            same_outcome(rt, "relative error needs a non-zero ground truth", zero,
                         lambda: rt.call(o.evaluate_performance_of_estimators, ground_truth_policy_value=g, action_dist=ad, metric="relative-ee"))
            rt.check("unknown metric rejected", rt.outcome(lambda: rt.call(o.evaluate_performance_of_estimators, ground_truth_policy_value=g, action_dist=ad, metric="mse")).raised(ValueError))
            rt.check("non-float ground truth rejected", rt.outcome(lambda: rt.call(o.evaluate_performance_of_estimators, ground_truth_policy_value="a", action_dist=ad)).raised(TypeError))
            shape_bad = lambda *cs: (lambda: raise_value() if decide(or_(*cs)) else None)
            methods = (o.estimate_policy_values, lambda **kw: o.estimate_intervals(n_bootstrap_samples=3, random_state=0, **kw)) if rt.concrete else (o.estimate_policy_values,)
            for m in methods:
                for q in (q2, {"a": q2}):
                    same_outcome(rt, "reward model of another shape rejected", shape_bad(ne(n, n2), ne(A, A2), ne(L, L2)), lambda: rt.call(m, action_dist=ad, estimated_rewards_by_reg_model=q))
                for q in (p2, {"b": p2}):
                    same_outcome(rt, "propensities of another length rejected", shape_bad(ne(n, n2)), lambda: rt.call(m, action_dist=ad, estimated_pscore=q))
                    same_outcome(rt, "importance weights of another length rejected", shape_bad(ne(n, n2)), lambda: rt.call(m, action_dist=ad, estimated_importance_weights=q))
                for q in (q2, {"b": q2}):
                    same_outcome(rt, "logging distributions of another length rejected", shape_bad(ne(n, n2)), lambda: rt.call(m, action_dist=ad, pi_b=q))
                    same_outcome(rt, "embedding distributions for another action set rejected", shape_bad(ne(A, n2)), lambda: rt.call(m, action_dist=ad, p_e_a=q))
                for k in ("estimated_rewards_by_reg_model", "pi_b", "p_e_a"):
                    rt.check(f"{k} of wrong dimension rejected", rt.outcome(lambda: rt.call(m, action_dist=ad, **{k: fb["reward"]})).raised(ValueError))
                rt.check("2-d action distribution rejected", rt.outcome(lambda: rt.call(m, action_dist=fb["context"])).raised(ValueError))
        return body
    us.append(Unit("OffPolicyEvaluation rejects malformed inputs", build, samples=20, contracts=VALIDATION, limit=200, max_paths=2000))

    def model_needed(cls, mods, base_kw, log):
        def build(D):
            fb, kw = log(D)

            def body(rt):
                for mod, extra in mods:
                    o = rt.new(cls, bandit_feedback=dict(fb), ope_estimators=[rt.new(mod, **extra)])
                    rt.check(f"{mod.__name__} without a reward model is rejected", rt.outcome(lambda: rt.call(o.estimate_policy_values, **kw)).raised(ValueError))
                    rt.check(f"{mod.__name__} intervals without a reward model are rejected", rt.outcome(lambda: rt.call(o.estimate_intervals, n_bootstrap_samples=2, random_state=0, **kw)).raised(ValueError))
            return body
        return Unit(f"{cls.__name__}: model-based estimators need a reward model", build, samples=5)

    def single(D):
        n, A, L, fb = log_single(D)
        return fb, dict(action_dist=D.array("ad", (n, A, L), simplex=1))

    def multi(D):
        n, A, L, fb = log_single(D)
        fb["pscore_avg"], fb["stratum_idx"] = fb["pscore"], D.array("stratum_idx", (n,), "int", lo=0, hi=2)
        return fb, dict(action_dist=D.array("ad", (n, A, L), simplex=1))

    def cont(D):
        n = D.dim("n", 1, 4)
        return dict(action=D.array("action", (n,)), reward=D.array("reward", (n,)), pscore=D.array("pscore", (n,), lo=0, lo_strict=True)), dict(action_by_evaluation_policy=D.array("ae", (n,)))
    us.append(model_needed(OPE, [(E.DirectMethod, {}), (E.DoublyRobust, {}), (E.SelfNormalizedDoublyRobust, {}), (E.SwitchDoublyRobust, {}), (E.DoublyRobustWithShrinkage, {}), (E.SubGaussianDoublyRobust, {})], {}, single))
    us.append(model_needed(MOPE, [(E.DirectMethod, {}), (EM.MultiLoggersNaiveDoublyRobust, {}), (EM.MultiLoggersBalancedDoublyRobust, {}), (EM.MultiLoggersWeightedDoublyRobust, {})], {}, multi))
    us.append(model_needed(COPE, [(EC.KernelizedDoublyRobust, dict(kernel="gaussian", bandwidth=0.1))], {}, cont))
    return us


def units():
    us = [ope_unit(f) for f in ("none", "dict", "array", "mixed", "no pscore")]
    us += [mope_unit(f) for f in ("none", "dict", "array", "no pscore")]
    us += [cope_unit(f) for f in ("none", "dict", "array")]
    us += [sope_unit(f) for f in ("full", "partial")]
    return us + error_units()
