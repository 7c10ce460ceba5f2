"""Bias and concentration helpers, hyper-parameter tuning."""
from .common import *
from .boot import *
from .contracts import CONTRACTS, VALIDATION
import obp.ope.estimators as E
import obp.ope.estimators_tuning as ET
import obp.ope.helper as H
from . import p02

C_SLOPE = num(float(np.sqrt(6) - 1))


def bias(n, r, w, wh, q): return abs_(mean(n, lambda i: (w(i) - wh(i)) * (r(i) - q(i))))


def bias_ub(n, r, w, wh, q, delta):
    lg = log(num(2) / delta)
    return (bias(n, r, w, wh, q) + sqrt(num(2) * mean(n, lambda i: w(i) ** 2) * lg / n)
            + num(2) * Max(n, lambda i: w(i)) * lg / (num(3) * n))


def var_(n, f): return mean(n, lambda i: (f(i) - mean(n, f)) ** 2)


def helpers():
    us = []

    def mk(fn, ub, with_q, kind, default_delta):
        def build(D):
            n = D.dim("n", 1, 5)
            r = D.array("reward", (n,), kind)
            w = D.array("iw", (n,), lo=0)
            wh = D.array("iw_hat", (n,), lo=0)
            q = D.array("q", (n,)) if with_q else None
            delta = D.real("delta", lo=0, hi=1, lo_strict=True)
            qf = q.at if with_q else (lambda i: ZERO)

            def body(rt):
                kw = dict(reward=r, iw=w, iw_hat=wh)
                if with_q:
                    kw["q_hat"] = q
                if ub:
                    if not default_delta:
                        kw["delta"] = delta
                    want = bias_ub(n, r.at, w.at, wh.at, qf, num(2) / num(40) if default_delta else term(delta))
                else:
                    want = bias(n, r.at, w.at, wh.at, qf)
                rt.check_eq("value", rt.body(fn, **kw), want)
                inputs_unchanged(rt, r, w, wh, q)
            return body
        return Unit(f"{fn.__name__} q={with_q} {kind}{' default delta' if default_delta else ''}", build)
    for wq in (True, False):
        for kind in ("float", "int"):
            us.append(mk(H.estimate_bias_in_ope, False, wq, kind, False))
            us.append(mk(H.estimate_high_probability_upper_bound_bias, True, wq, kind, False))
    us.append(mk(H.estimate_high_probability_upper_bound_bias, True, True, "float", True))

    def lower(fn, spec, has_max, given):
        def build(D):
            n = D.dim("n", 2, 5)
            x = D.array("x", (n,))
            delta = D.real("delta", lo=0, hi=1, lo_strict=True, hi_strict=True)
            xm = D.real("x_max") if given else None

            def body(rt):
                kw = dict(x=x, delta=delta)
                if has_max:
                    kw["x_max"] = xm
                mx = Max(n, lambda i: x.at(i))

                def sp():
                    if given and decide(lt(term(xm), mx)):
                        raise_value()
                s, c = same_outcome(rt, "x_max", sp, lambda: rt.body(fn, **kw))
                if s.returned and c.returned:
                    rt.check_eq("lower bound", c.value, spec(n, x.at, term(xm) if given else mx, term(delta)))
            return body
        return Unit(f"{fn.__name__} x_max={'given' if given else 'default'}", build, samples=20)
    hoef = lambda n, x, m, d: mean(n, x) - m * sqrt(log(ONE / d) / (num(2) * n))
    bern = lambda n, x, m, d: (mean(n, x) - num(7) * m * log(num(2) / d) / (num(3) * (n - ONE))
                               - sqrt(num(2) * log(num(2) / d) * var_(n, x) / (n - ONE)))
    stud = lambda n, x, m, d: mean(n, x) - sqrt(var_(n, x) / (n - ONE)) * app("t_ppf", n - ONE, ONE - d)
    for g in (True, False):
        us.append(lower(H.estimate_hoeffding_lower_bound, hoef, True, g))
        us.append(lower(H.estimate_bernstein_lower_bound, bern, True, g))
    us.append(lower(H.estimate_student_t_lower_bound, stud, False, False))

    def deltas(D):
        n = D.dim("n", 2, 4)
        x = D.array("x", (n,), lo=0)
        delta = D.real("delta", gen=lambda r, e: r.choice([-0.5, 0.2, 1.0, 1.5]))

        def body(rt):
            def sp():
                if decide(or_(lt(term(delta), ZERO), lt(ONE, term(delta)))):
                    raise_value()
            rt.assume(ne(term(delta), ZERO))
            for fn, kw in ((H.estimate_hoeffding_lower_bound, dict(x=x)), (H.estimate_bernstein_lower_bound, dict(x=x, x_max=None)),
                           (H.estimate_student_t_lower_bound, dict(x=x)),
                           (H.estimate_high_probability_upper_bound_bias, dict(reward=x, iw=x, iw_hat=x))):
                same_outcome(rt, fn.__name__ + " delta", sp, lambda: rt.body(fn, delta=delta, **kw))
        return body
    us.append(Unit("delta outside the unit interval is rejected", deltas, samples=20))
    return us


def inf_ok(x): return x


SPECS = {
    E.InverseProbabilityWeighting: (False, lambda d, i, l: min2(weight(d, i), l), {}),
    E.SubGaussianInverseProbabilityWeighting: (False, lambda d, i, l: weight(d, i) / (ONE - l + l * weight(d, i)), {"hi": 1, "hi_strict": True}),
    E.DoublyRobust: (True, p02.w_dr, {}),
    E.SwitchDoublyRobust: (True, p02.w_switch, {}),
    E.DoublyRobustWithShrinkage: (True, p02.w_os, {"lo_strict": True}),
    E.SubGaussianDoublyRobust: (True, p02.w_sg, {"hi": 1, "hi_strict": True}),
}
TUNERS = {
    E.InverseProbabilityWeighting: ET.InverseProbabilityWeightingTuning,
    E.SubGaussianInverseProbabilityWeighting: ET.SubGaussianInverseProbabilityWeightingTuning,
    E.DoublyRobust: ET.DoublyRobustTuning,
    E.SwitchDoublyRobust: ET.SwitchDoublyRobustTuning,
    E.DoublyRobustWithShrinkage: ET.DoublyRobustWithShrinkageTuning,
    E.SubGaussianDoublyRobust: ET.SubGaussianDoublyRobustTuning,
}


def per_round(cls, d, l):
    q, wt, _ = SPECS[cls]
    if q:
        return lambda i: p02.dm(d, i) + wt(d, i, l) * p02.resid(d, i)
    return lambda i: d["reward"].at(i) * wt(d, i, l)


def score(cls, d, l, ub, delta):
    q, wt, _ = SPECS[cls]
    n = d["n"]
    f = per_round(cls, d, l)
    r = d["reward"].at
    qf = (lambda i: d["q"].at(i, d["action"].at(i), pos_at(d, i))) if q else (lambda i: ZERO)
    w, wh = (lambda i: weight(d, i)), (lambda i: wt(d, i, l))
    b = bias_ub(n, r, w, wh, qf, delta) if ub else bias(n, r, w, wh, qf)
    return var_(n, f) / n + b ** 2


def spec_round_rewards(cls):
    def f(self, reward, action, pscore, action_dist, position=None, estimated_rewards_by_reg_model=None, **kw):
        d = from_args(reward, action, pscore, action_dist, position, estimated_rewards_by_reg_model)
        return SArr((d["n"],), opq_arr(None, (d["n"],), lambda l: per_round(cls, d, l), term(self.lambda_)))
    return f


def from_args(reward, action, pscore, action_dist, position, q):
    if position is None and SPECS is not None:
        raise Unsupported("contract needs positions")
    return dict(n=reward.axes[0].n, A=action_dist.axes[1].n, reward=reward, action=action, pscore=pscore, action_dist=action_dist, position=position, q=q)


def spec_mse(cls):
    def f(self, reward, action, pscore, action_dist, position=None, estimated_rewards_by_reg_model=None, use_bias_upper_bound=True, delta=0.05, **kw):
        d = from_args(reward, action, pscore, action_dist, position, estimated_rewards_by_reg_model)
        return Sym(opq(None, lambda l, e: score(cls, d, l, use_bias_upper_bound, e), term(self.lambda_), term(delta)), "float")
    return f


def spec_student(x, delta=0.05):
    n = x.axes[0].n
    return Sym(mean(n, x.at) - width(None, n, x.at, term(delta)), "float")


def width_(rt, n, f, delta):
    # the width is opaque in the data (through the array's own symbol) and in delta
    i0 = tm.var("opq_probe", "I")
    t = tm.as_num(f(i0))
    if rt is None or not rt.concrete:
        if t.op == "app" and t.args[0].startswith("opqa") and t.args[-1] is i0:
            name, par = t.args[0], t.args[1:-1]
            return opq(rt, lambda e, *p: raw_width(n, lambda i: app(name, *p, i), e), delta, *par)
    return raw_width(n, f, delta)


def raw_width(n, f, delta):
    return sqrt(var_(n, f) / (n - ONE)) * app("t_ppf", n - ONE, ONE - delta)


def width(rt, n, f, delta):
    return width_(rt, n, f, delta)


def _key(cls, m): return f"{cls.__module__}:{cls.__name__}.{m}"


CONTRACTS = dict(CONTRACTS)
for _c in SPECS:
    CONTRACTS[_key(_c, "_estimate_round_rewards")] = FnContract(_key(_c, "_estimate_round_rewards"), spec_round_rewards(_c))
    CONTRACTS[_key(_c, "_estimate_mse_score")] = FnContract(_key(_c, "_estimate_mse_score"), spec_mse(_c))
CONTRACTS["obp.ope.helper:estimate_student_t_lower_bound"] = FnContract("", spec_student)
TUNE = tuple(k for k in CONTRACTS if k not in VALIDATION)


def data_kw(d, cls, **extra):
    kw = dict(reward=d["reward"], action=d["action"], action_dist=d["action_dist"], position=d["position"], pscore=d["pscore"])
    if SPECS[cls][0]:
        kw["estimated_rewards_by_reg_model"] = d["q"]
    kw.update(extra)
    return kw


def mse_scores():
    us = []
    for cls, (q, wt, rng) in SPECS.items():
        for ub in (True, False):
            def build(D, cls=cls, q=q, ub=ub, rng=rng):
                d = ope_inputs(D, q=q)
                l = D.real("lam", lo=0, **rng)
                delta = D.real("delta", lo=0, hi=1, lo_strict=True)

                def body(rt):
                    e = rt.new(cls, lambda_=l)
                    v = rt.call(e._estimate_mse_score, use_bias_upper_bound=ub, delta=delta, **data_kw(d, cls))
                    rt.check_eq("estimated mean squared error", v, score(cls, d, term(l), ub, term(delta)))
                    inputs_unchanged(rt, d["reward"], d["action"], d["pscore"], d["action_dist"], d["position"])
                return body
            us.append(round_unit(cls)) if ub else None
            us.append(Unit(f"{cls.__name__}._estimate_mse_score bound={ub}", build))
    return us


def round_unit(cls):
    q, wt, rng = SPECS[cls]

    def build(D):
        d = ope_inputs(D, q=q)
        l = D.real("lam", lo=0, **rng)

        def body(rt):
            rr = rt.call(rt.new(cls, lambda_=l)._estimate_round_rewards, **data_kw(d, cls))
            rt.check_eq("round-wise estimates", rr, SArr((d["n"],), per_round(cls, d, term(l))))
        return body
    return Unit(f"{cls.__name__}._estimate_round_rewards", build)


def slope_choice(K, theta, cnf):
    """index (per SLOPE) of the chosen candidate; widths are assumed distinct"""
    order = []
    for j in range(K):
        p = len(order)
        while p > 0 and decide(lt(cnf[order[p - 1]], cnf[j])):
            p -= 1
        order.insert(p, j)
    best = order[0]
    for s in range(1, K):
        i = order[s]
        if not all(decide(le(abs_(theta[j] - theta[i]), cnf[i] + C_SLOPE * cnf[j])) for j in order[:s]):
            break
        best = i
    return best


def tuning(cls, method, K, what="value", ub=True, est=False, no_pos=False):
    q, wt, rng = SPECS[cls]

    def build(D):
        d = ope_inputs(D, q=q, multi_pos=not no_pos)
        n = d["n"]
        if method == "slope":
            D.hyp(le(num(2), n))
        ls = [D.real(f"lam{j}", lo=0, gen=None if K <= 2 else (lambda r, e, j=j: (j + 0.1 + 0.8 * r.rand()) / K * (1 if "hi" in rng else 3)), **rng) for j in range(K)]
        if K > 2:
            for j in range(K - 1):
                D.hyp(lt(term(ls[j]), term(ls[j + 1])))
        delta = D.real("delta", lo=0, hi=1, lo_strict=True, hi_strict=True)
        other = D.array("logged_pscore", (n,), lo=0, lo_strict=True, hi=1) if est else None
        B = D.int("B", lo=1, gen=lambda r, e: r.randint(1, 4)) if what == "interval" else None
        seed = D.int("seed", lo=0, gen=lambda r, e: r.randint(0, 1000)) if what == "interval" else None
        al = D.real("alpha", lo=0, hi=1) if what == "interval" else None
        lt_ = [term(l) for l in ls]
        def body(rt):
            t = rt.new(TUNERS[cls], lambdas=list(ls), tuning_method=method, use_bias_upper_bound=ub, delta=delta, use_estimated_pscore=est)
            kw = data_kw(d, cls)
            if est:
                kw["estimated_pscore"] = kw["pscore"]
                kw["pscore"] = other
            if no_pos and not rt.concrete:
                d["position"] = SArr((n,), lambda i: ZERO, "int")
            rr = [opq_arr(rt, (n,), lambda l: per_round(cls, d, l), l) for l in lt_]
            if method == "mse":
                crit = [opq(rt, lambda l, e: score(cls, d, l, ub, e), l, term(delta)) for l in lt_]
            else:
                theta = [mean(n, f) for f in rr]
                cnf = [width(rt, n, f, term(delta)) for f in rr]
                for a in range(K):
                    for b in range(a):
                        rt.assume(ne(cnf[a], cnf[b]))
                        if rt.concrete:      # keep rounding ties out of the replay
                            rt.assume(lt(num(1e-7), abs_(cnf[a] - cnf[b])))
                            rt.assume(lt(num(1e-7), abs_(abs_(theta[a] - theta[b]) - min2(cnf[a], cnf[b]) - C_SLOPE * max2(cnf[a], cnf[b]))))
            if what == "value":
                v = rt.call(t.estimate_policy_value, **kw)
            else:
                v = rt.call(t.estimate_interval, alpha=al, n_bootstrap_samples=B, random_state=seed, **kw)
            if method == "mse":
                good = [j for j in range(K) if all(decide(le(crit[j], crit[m])) for m in range(K) if m != j)]
            else:
                good = [slope_choice(K, theta, cnf)]
            if what == "value":
                rt.check("estimate = base estimator with the selected hyper-parameter",
                         or_(*[eq(term(v), mean(n, rr[j])) for j in good]))
            else:
                rt.assume(len(good) == 1)
                rt.check_eq("interval = base estimator's interval with the selected hyper-parameter", v,
                            ci_spec(rt, boot_means(rt, rr[good[0]], n, B, seed), al, B))
        return body
    return Unit(f"{TUNERS[cls].__name__} {method}, {K} candidates, {what}" + ("" if ub else ", plain bias") + (", estimated propensities" if est else "") + (", no positions" if no_pos else ""),
                build, contracts=VALIDATION + TUNE, limit=200,
                needs=(_key(cls, "_estimate_round_rewards"),) + ((_key(cls, "_estimate_mse_score"),) if method == "mse" else ("obp.ope.helper:estimate_student_t_lower_bound",)))


def ctor_units():
    us = []
    for cls, tun in TUNERS.items():
        hi = 1 if "hi" in SPECS[cls][2] else None

        def build(D, tun=tun, hi=hi):
            l = D.real("lam", gen=lambda r, e: r.choice([-1.0, -0.01, 0.0, 0.5, 1.0, 1.01, 7.0]))
            delta = D.real("delta", gen=lambda r, e: r.choice([-0.1, 0.0, 0.3, 1.0, 1.2]))

            def body(rt):
                def sp():
                    if decide(or_(lt(term(l), ZERO), lt(term(num(hi)), term(l)) if hi else FALSE)):
                        raise_value()
                for ls in ([l], [0.5, l], [l, 0.25, 0.75]):
                    same_outcome(rt, f"candidate at index {ls.index(l) if len(ls) < 2 else ('last' if ls[-1] is l else 0)} of {len(ls)}", sp, lambda: rt.new(tun, lambdas=list(ls)))

                def sd():
                    if decide(or_(lt(term(delta), ZERO), lt(ONE, term(delta)))):
                        raise_value()
                same_outcome(rt, "delta", sd, lambda: rt.new(tun, lambdas=[0.5], delta=delta))
                for bad, exc in (([], ValueError), ([0.5, np.nan], ValueError), (["a"], TypeError), ([None], TypeError), (None, TypeError), (0.5, TypeError), ((0.5,), TypeError)):
                    rt.check(f"lambdas={bad!r} rejected", rt.outcome(lambda: rt.new(tun, lambdas=bad)).raised(exc))
                for kw, exc in ((dict(tuning_method="x"), ValueError), (dict(tuning_method=None), ValueError), (dict(use_bias_upper_bound="a"), TypeError),
                                (dict(use_estimated_pscore="a"), TypeError), (dict(delta="a"), TypeError), (dict(delta=None), TypeError)):
                    rt.check(f"{kw} rejected", rt.outcome(lambda: rt.new(tun, lambdas=[0.5], **kw)).raised(exc))
                rt.check("well-formed arguments accepted", rt.outcome(lambda: rt.new(tun, lambdas=[0.5, 1, 0], tuning_method="mse", use_bias_upper_bound=False, delta=0.05, use_estimated_pscore=True)).returned)
            return body
        us.append(Unit(f"{tun.__name__} construction", build, samples=20))
    return us


def units():
    us = ctor_units() + helpers() + mse_scores()
    for cls in SPECS:
        us.append(tuning(cls, "mse", 2))
        us.append(tuning(cls, "mse", 2, ub=False))
        us.append(tuning(cls, "mse", 3, ub=False))
        us.append(tuning(cls, "mse", 2, est=True, ub=False))
        us.append(tuning(cls, "mse", 2, what="interval", ub=False))
        us.append(tuning(cls, "mse", 2, ub=False, no_pos=True))
        us.append(tuning(cls, "slope", 1))
        us.append(tuning(cls, "slope", 2))
        if cls in (E.InverseProbabilityWeighting, E.SubGaussianDoublyRobust):      # the selection loop is shared by all classes
            us.append(tuning(cls, "slope", 3))
        us.append(tuning(cls, "slope", 2, est=True))
        us.append(tuning(cls, "slope", 2, what="interval"))
        us.append(tuning(cls, "slope", 2, what="interval", est=True))
    return us
