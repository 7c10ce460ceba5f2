"""Bootstrap confidence interval: contract and verification units."""
from .common import *


def boot_means(rt, samples, n, B, seed):
    idx = rt.replicate(seed, B, lambda r: r.choice(wrapn(n), size=wrapn(n)))
    f = samples.at if isinstance(samples, SArr) else samples
    return SArr((term(B),), lambda b: mean(n, lambda j: f(idx.at(b, j))))


def wrapn(n):
    return Sym(n, "int") if isinstance(n, T) else n


def ci_spec(rt, boots, alpha, B):
    """the dictionary the property prescribes"""
    al = term(alpha)
    key = rt.fmt(lambda a: 100 * (1.0 - a), alpha)
    H = num(100)
    return {"mean": mean(term(B), lambda b: boots.at(b)),
            f"{key}% CI (lower)": rt.np(np.percentile, boots, Sym(H * al / num(2), "float")),
            f"{key}% CI (upper)": rt.np(np.percentile, boots, Sym(H * (ONE - al / num(2)), "float"))}


def ci_contract_units(alphas=(None,)):
    us = []

    def make(alpha, kind="float"):
        def build(D):
            n = D.dim("n", 1, 6)
            x = D.array("x", (n,), kind)
            B = D.int("B", lo=1, gen=lambda r, e: r.randint(1, 8))
            seed = D.int("seed", lo=0, gen=lambda r, e: r.randint(0, 1000))
            al = D.real("alpha", lo=0, hi=1) if alpha is None else alpha

            def body(rt):
                r = rt.body(U.estimate_confidence_interval_by_bootstrap, samples=x, alpha=al, n_bootstrap_samples=B, random_state=seed)
                rt.check_eq("interval", r, ci_spec(rt, boot_means(rt, x, n, B, seed), al, B))
                inputs_unchanged(rt, x)
            return body
        return Unit(f"bootstrap interval, alpha={'any' if alpha is None else alpha}{'' if kind == 'float' else ', ' + kind + ' samples'}", build, samples=20)
    us += [make(None), make(0.05), make(0.1), make(0.3), make(None, "int")]

    def defaults(D):
        n = D.dim("n", 1, 3)
        x = D.array("x", (n,))

        def body(rt):
            B = 10000
            if rt.concrete:
                from pv.verify import Reject
                r = rt.call(U.estimate_confidence_interval_by_bootstrap, samples=x, random_state=12345)
                xs = rt.mat(x)
                rr = np.random.RandomState(12345)
                bs = [np.mean(rr.choice(xs, size=xs.shape[0])) for _ in range(B)]
                rt.check_eq("default interval", r, {"mean": np.mean(bs), "95.0% CI (lower)": np.percentile(bs, 2.5), "95.0% CI (upper)": np.percentile(bs, 97.5)})
            else:
                r = rt.body(U.estimate_confidence_interval_by_bootstrap, samples=x, random_state=12345)
                rt.check_eq("default interval", r, ci_spec(rt, boot_means(rt, x, n, B, 12345), 0.05, B))
        return body
    us.append(Unit("bootstrap interval with default settings (95%, 10000 replicates)", defaults, samples=1))

    def args(D):
        al = D.real("alpha", gen=lambda r, e: r.choice([-0.1, 0.0, 0.05, 1.0, 1.1]))
        B = D.int("B", lo=None, gen=lambda r, e: r.choice([-1, 0, 1, 5]))

        def body(rt):
            def spec():
                if decide(or_(lt(term(al), ZERO), lt(ONE, term(al)), lt(term(B), ONE))):
                    raise_value()
            same_outcome(rt, "check_confidence_interval_arguments", spec, lambda: rt.body(U.check_confidence_interval_arguments, alpha=al, n_bootstrap_samples=B, random_state=1))
            for bad in ("0.05", None, 1):
                o = rt.outcome(lambda: rt.body(U.check_confidence_interval_arguments, alpha=bad, n_bootstrap_samples=10, random_state=1))
                rt.check(f"alpha of type {type(bad).__name__} rejected", o.raised(TypeError))
            for bad in ("10", None, 10.0):
                o = rt.outcome(lambda: rt.body(U.check_confidence_interval_arguments, alpha=0.1, n_bootstrap_samples=bad, random_state=1))
                rt.check(f"n_bootstrap_samples of type {type(bad).__name__} rejected", o.raised(TypeError))
            o = rt.outcome(lambda: rt.body(U.check_confidence_interval_arguments, alpha=0.1, n_bootstrap_samples=3, random_state="x"))
            rt.check("bad random state rejected", o.raised(ValueError))
        return body
    us.append(Unit("arguments of the bootstrap are validated", args, samples=10))
    return us
