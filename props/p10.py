"""Continuous-action kernel estimators compute their formulas."""
from .common import *
from .boot import *
from .contracts import CONTRACTS, VALIDATION, Dims, g_pos, same_or
from . import contracts as C
import obp.ope.estimators_continuous as K

ASSUMPTIONS = []


def clip1(u):
    return max2(min2(u, ONE), -ONE)


def cos(t): return app("cos", t)


KERNEL = {
    "gaussian": lambda u: exp(-(u * u) / num(2)) / num(float(np.sqrt(2 * np.pi))),
    "epanechnikov": lambda u: num("3/4") * (ONE - clip1(u) * clip1(u)),
    "triangular": lambda u: ONE - abs_(clip1(u)),
    "cosine": lambda u: num(float(np.pi / 4)) * cos(clip1(u) * num(float(np.pi)) / num(2)),
}


def data(D, q=False, kind="float"):
    n = D.dim("n", 1, 5)
    d = dict(n=n, reward=D.array("reward", (n,), kind), action_by_behavior_policy=D.array("ab", (n,)),
             action_by_evaluation_policy=D.array("ae", (n,)), pscore=D.array("pscore", (n,), lo=0, lo_strict=True))
    if q:
        d["estimated_rewards_by_reg_model"] = D.array("q", (n,))
    return d


def make(cls, kern, form, kind="float"):
    q = form == "dr"

    def build(D):
        d = data(D, q, kind)
        n = d["n"]
        h = D.real("h", lo=0, lo_strict=True, gen=lambda r, e: r.uniform(0.2, 3))
        kf = KERNEL[kern]
        u = lambda i: (d["action_by_evaluation_policy"].at(i) - d["action_by_behavior_policy"].at(i)) / term(h)
        w = lambda i: kf(u(i)) / d["pscore"].at(i)
        r = d["reward"].at
        if form == "ipw":
            per = lambda i: w(i) * r(i) / term(h)
        elif form == "sn":
            per = lambda i: w(i) * r(i) / mean(n, w)
            D.hyp(lt(ZERO, Sum(n, w)))
            D.sampled_only(lt(num("1/100"), Sum(n, w)))
        else:
            qh = d["estimated_rewards_by_reg_model"].at
            per = lambda i: qh(i) + w(i) * (r(i) - qh(i)) / term(h)
        args = {k: v for k, v in d.items() if k != "n"}
        B = D.int("B", lo=1, gen=lambda r, e: r.randint(1, 5))
        seed = D.int("seed", lo=0, gen=lambda r, e: r.randint(0, 1000))
        al = D.real("alpha", lo=0, hi=1)

        def body(rt):
            e = rt.new(cls, kernel=kern, bandwidth=h)
            rt.check_eq("estimate_policy_value", rt.call(e.estimate_policy_value, **args), mean(n, per))
            res = rt.call(e.estimate_interval, alpha=al, n_bootstrap_samples=B, random_state=seed, **args)
            rt.check_eq("estimate_interval", res, ci_spec(rt, boot_means(rt, per, n, B, seed), al, B))
            inputs_unchanged(rt, *args.values())
        return body
    return Unit(f"{cls.__name__}, {kern}{'' if kind == 'float' else ', ' + kind}", build, contracts=VALIDATION, samples=25)


def kernels(name):
    """the kernel functions themselves: values, symmetry, support"""
    def build(D):
        n = D.dim("n", 1, 5)
        u = D.array("u", (n,), gen=lambda rng, env, sh, style: rng.choice([-2.0, -1.0, -0.5, 0.0, 0.3, 1.0, 1.7], size=sh))

        def body(rt):
            f = K.kernel_functions[name]
            v = rt.call(f, u)
            rt.check_eq("values", v, SArr((n,), lambda i: KERNEL[name](u.at(i))))
            if name in ("epanechnikov", "triangular"):
                vv = to_arr(v)
                rt.check_eq("symmetric", rt.call(f, rt.np(np.negative, u)), vv)
                rt.check("non-negative", Forall(n, lambda i: le(ZERO, vv.at(i))))
                rt.check("zero outside the unit interval", Forall(n, lambda i: implies(or_(le(ONE, u.at(i)), le(u.at(i), -ONE)), eq(vv.at(i), ZERO))))
            inputs_unchanged(rt, u)
        return body
    return Unit(f"{name} kernel", build, samples=10)


def rejects(cls, q=False):
    def build(D):
        dm = Dims(D)
        a = dict(action_by_evaluation_policy=D.array("ae", (dm.n,)), action_by_behavior_policy=D.array("ab", (dm.like(),)), reward=D.array("reward", (dm.like(),)),
                 pscore=D.array("pscore", (dm.like(),), gen=g_pos))
        if q:
            a["estimated_rewards_by_reg_model"] = D.array("q", (dm.like(),))
        kw = dict(kernel="gaussian", bandwidth=1.0)

        def body(rt):
            e = rt.new(cls, **kw)
            ok = spec_outcome(rt, lambda: C.spec_check_continuous_ope_inputs(**a))
            for m in ("estimate_policy_value", "estimate_interval"):
                extra = {} if m == "estimate_policy_value" else dict(n_bootstrap_samples=2, random_state=0)
                o = rt.outcome(lambda: rt.call(getattr(e, m), **a, **extra))
                if not ok.returned:
                    rt.check(f"{m}: ill-formed input rejected", o.raised(ValueError))
                else:
                    rt.check(f"{m}: well-formed input accepted", o.returned)
                for k in a:
                    if k == "action_by_evaluation_policy":
                        continue
                    o = rt.outcome(lambda: rt.call(getattr(e, m), **dict(a, **{k: None}), **extra))
                    rt.check(f"{m}: missing {k} rejected", o.raised(ValueError))
        return body
    return Unit(f"{cls.__name__} validates its inputs", build, samples=25, contracts=VALIDATION)


def ctor(cls):
    def build(D):
        h = D.real("h", gen=lambda r, e: r.choice([-1.0, -0.1, 0.0, 0.5, 10.0]))

        def body(rt):
            for k in KERNEL:
                o = rt.outcome(lambda: rt.new(cls, kernel=k, bandwidth=h))
                if rt.decide(lt(term(h), ZERO)):
                    rt.check("negative bandwidth rejected", o.raised(ValueError))
                else:
                    rt.check("bandwidth accepted", o.returned)
            for k in ("gauss", "", None, "Gaussian"):
                rt.check("unknown kernel rejected", rt.outcome(lambda: rt.new(cls, kernel=k, bandwidth=1.0)).raised(ValueError))
            for v in ("1", None, [1.0]):
                rt.check("bandwidth of the wrong type rejected", rt.outcome(lambda: rt.new(cls, kernel="gaussian", bandwidth=v)).raised(TypeError))
        return body
    return Unit(f"{cls.__name__} hyperparameter validation", build, samples=8)


def units():
    us = [kernels(k) for k in KERNEL]
    for cls, form in ((K.KernelizedInverseProbabilityWeighting, "ipw"), (K.KernelizedSelfNormalizedInverseProbabilityWeighting, "sn"), (K.KernelizedDoublyRobust, "dr")):
        us += [make(cls, k, form) for k in KERNEL] + [make(cls, "triangular", form, "int"), rejects(cls, form == "dr"), ctor(cls)]
    return us
