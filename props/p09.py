"""Multi-logger estimators compute their formulas."""
from .common import *
from .boot import *
from .contracts import CONTRACTS, VALIDATION, validation_units, Dims, g_int, g_pos, g_dist, same_or
from . import contracts as C
from .p03 import hyper
import obp.ope.estimators_multi as M

ASSUMPTIONS = []


def clip(w, lam):
    return w if lam is None else min2(w, lam)


def make(cls, dr=False, avg=False, strat=False, lam=True, multi_pos=True, est=False, kind="float", label=""):
    def build(D):
        d = ope_inputs(D, q=dr, multi_pos=multi_pos, reward_kind=kind)
        n = d["n"]
        kw = {}
        l = None
        if lam:
            kw["lambda_"] = D.real("lam", lo=0)
            l = term(kw["lambda_"])
        other = D.array("other_pscore", (n,), lo=0, lo_strict=True, hi=1)
        logger = D.array("logger_pscore", (n,), lo=0, lo_strict=True, hi=1)
        K = None
        args = dict(reward=d["reward"], action=d["action"], action_dist=d["action_dist"], position=d["position"])
        if strat:
            K = D.int("K", lo=1, gen=lambda r, e: r.randint(1, min(3, e.vars["n"]) + 1))
            d["stratum"] = D.codes("stratum", n, term(K))
            args["stratum_idx"] = d["stratum"]
        if dr:
            args["estimated_rewards_by_reg_model"] = d["q"]
        suf = "pscore_avg" if avg else "pscore"
        # every propensity the front-end may pass is present; exactly one is the right one
        args["pscore"] = args["pscore_avg"] = logger
        args["estimated_pscore"] = args["estimated_pscore_avg"] = other
        args[("estimated_" if est else "") + suf] = d["pscore"]
        if est:
            kw["use_estimated_pscore"] = True
        w = lambda i: clip(weight(d, i), l)
        qv = lambda i: Sum(d["A"], lambda a: d["q"].at(i, a, pos_at(d, i)) * d["action_dist"].at(i, a, pos_at(d, i)))
        qa = lambda i: d["q"].at(i, d["action"].at(i), pos_at(d, i))
        resid = (lambda i: w(i) * (d["reward"].at(i) - qa(i))) if dr else (lambda i: d["reward"].at(i) * w(i))
        full = (lambda i: qv(i) + resid(i)) if dr else resid
        if strat:
            ind = lambda k, i: iv(eq(d["stratum"].at(i), k))
            cnt = lambda k: Sum(n, lambda i: ind(k, i))

            def vark_raw(k):
                m = Sum(n, lambda i: ind(k, i) * full(i)) / cnt(k)
                return Sum(n, lambda i: ind(k, i) * (full(i) - m) * (full(i) - m)) / cnt(k)
            D.opaque_var(opq_namer)
            V_ = []
            vark_ = lambda k: V_[0](k) if V_ else vark_raw(k)
            var_of = lambda rt: (lambda k: opq(rt, vark_raw, k))
            pos = lambda: Forall(term(K), lambda k: lt(ZERO, vark_(k)))
            D.sampled_only(Forall(term(K), lambda k: lt(tm.num("1/10000"), vark_raw(k))))
            den = lambda: Sum(term(K), lambda k: cnt(k) / vark_(k))
            wk = lambda k: n / (vark_(k) * den())
            per = lambda i: (qv(i) if dr else ZERO) + resid(i) * wk(d["stratum"].at(i))
        else:
            per = full
        B = D.int("B", lo=1, gen=lambda r, e: r.randint(1, 5))
        seed = D.int("seed", lo=0, gen=lambda r, e: r.randint(0, 1000))
        al = D.real("alpha", lo=0, hi=1)

        def body(rt):
            if strat:
                V_[:] = [var_of(rt)]
                rt.assume(pos())
            e = rt.new(cls, **kw)
            rt.check_eq("estimate_policy_value", rt.call(e.estimate_policy_value, **args), mean(n, per))
            r = rt.call(e.estimate_interval, alpha=al, n_bootstrap_samples=B, random_state=seed, **args)
            rt.check_eq("estimate_interval", r, ci_spec(rt, boot_means(rt, per, n, B, seed), al, B))
            inputs_unchanged(rt, *args.values())
        return body
    return Unit(f"{cls.__name__}{label}", build, contracts=VALIDATION, samples=25)


def rejects(cls, dr=False, avg=False, strat=False, est=False):
    """the public entry points refuse exactly what the validation contract refuses"""
    def build(D):
        dm = Dims(D)
        n, A, L = dm.n, D.dim("A", 1, 3), D.dim("L", 1, 2)
        a = {"action_dist": D.array("pi", (n, A, L), gen=g_dist), "action": D.array("action", (n,), "int", gen=g_int(A)),
             "reward": D.array("reward", (dm.like(),)), "position": D.array("pos", (n,), "int", gen=g_int(L)),
             "pscore": D.array("pscore", (n,), gen=g_pos)}
        if dr:
            a["estimated_rewards_by_reg_model"] = D.array("q", (n, term(D.int("qA", lo=1, gen=same_or(None, "A"))), L))
        if strat:
            a["stratum_idx"] = D.array("stratum", (n,), "int", gen=lambda rng, env, sh, style: np.where(rng.rand(*sh) < 0.1, -1, 0))
        nm_ = ("estimated_" if est else "") + ("pscore_avg" if avg else "pscore")
        call = {k: v for k, v in a.items() if k != "pscore"}
        call[nm_] = a["pscore"]

        def body(rt):
            e = rt.new(cls, use_estimated_pscore=est)
            ok = spec_outcome(rt, lambda: C.spec_check_multi_loggers_ope_inputs(**a))
            if ok.returned and strat:
                return
            for m in ("estimate_policy_value", "estimate_interval"):
                extra = {} if m == "estimate_policy_value" else dict(n_bootstrap_samples=2, random_state=0)
                o = rt.outcome(lambda: rt.call(getattr(e, m), **call, **extra))
                if not ok.returned:
                    rt.check(f"{m}: ill-formed input rejected", o.raised(ValueError))
                else:
                    rt.check(f"{m}: well-formed input accepted", o.returned)
        return body
    return Unit(f"{cls.__name__}{' (estimated pscore)' if est else ''} validates its inputs", build, samples=25, contracts=VALIDATION)


def missing(cls, dr=False, avg=False, strat=False):
    def build(D):
        d = ope_inputs(D, q=dr)
        base = {k: d[k] for k in ("reward", "action", "action_dist", "position")}
        if dr:
            base["estimated_rewards_by_reg_model"] = d["q"]
        if strat:
            base["stratum_idx"] = d["action"]
        s = "pscore_avg" if avg else "pscore"

        def body(rt):
            for flag, given in ((False, "estimated_" + s), (True, s)):
                e = rt.new(cls, use_estimated_pscore=flag)
                for m in ("estimate_policy_value", "estimate_interval"):
                    o = rt.outcome(lambda: rt.call(getattr(e, m), **base, **{given: d["pscore"]}))
                    rt.check(f"{m}: propensities missing (use_estimated_pscore={flag})", o.raised(ValueError))
        return body
    return Unit(f"{cls.__name__} needs the propensities it is configured for", build, samples=3, contracts=VALIDATION)


def units():
    us = []
    for cls, kw in ((M.MultiLoggersNaiveInverseProbabilityWeighting, {}), (M.MultiLoggersBalancedInverseProbabilityWeighting, dict(avg=True)),
                    (M.MultiLoggersWeightedInverseProbabilityWeighting, dict(strat=True)), (M.MultiLoggersNaiveDoublyRobust, dict(dr=True)),
                    (M.MultiLoggersBalancedDoublyRobust, dict(dr=True, avg=True)), (M.MultiLoggersWeightedDoublyRobust, dict(dr=True, strat=True))):
        us += [make(cls, **kw), make(cls, lam=False, label=", no clipping", **kw), make(cls, multi_pos=False, label=", no positions", **kw),
               make(cls, est=True, label=", estimated propensities", **kw), make(cls, kind="int", label=", integer rewards", **kw),
               rejects(cls, **kw), missing(cls, **kw), hyper(cls)]
    return us
