"""Marginalized IPS (action embeddings) computes its formula."""
from .common import *
from .boot import *
from .contracts import CONTRACTS, VALIDATION
from . import contracts as C
from .p03 import Dims, g_dist, g_int, g_pos, same_or
import obp.ope.estimators_embed as EM

ASSUMPTIONS = []


def data(D, multi_pos=True, kind="float"):
    d = ope_inputs(D, multi_pos=multi_pos, reward_kind=kind)
    n, A, L = d["n"], d["A"], d["L"]
    E, C_ = D.dim("E", 1, 3), D.dim("C", 1, 3)
    d.update(E=E, C=C_, pi_b=D.array("pi_b", (n, A, L), simplex=1), action_embed=D.array("embed", (n, E), "int", lo=0, hiT=C_),
             p_e_a=D.array("p_e_a", (A, C_, E), lo=0, lo_strict=True, hi=1), context=D.array("ctx", (n, D.dim("dc", 1, 2))))
    return d


def marginal(d, pol, i):
    p = pos_at(d, i)
    return Prod(d["E"], lambda k: Sum(d["A"], lambda a: d[pol].at(i, a, p) * d["p_e_a"].at(a, d["action_embed"].at(i, k), k)))


def make(cls, sn, multi_pos=True, kind="float"):
    def build(D):
        d = data(D, multi_pos, kind)
        n = d["n"]
        d["pi_e"] = d["action_dist"]
        w = lambda i: marginal(d, "action_dist", i) / marginal(d, "pi_b", i)
        D.hyp(Forall(n, lambda i: lt(ZERO, marginal(d, "pi_b", i))))
        if sn:
            D.hyp(lt(ZERO, Sum(n, w)))
            per = lambda i: d["reward"].at(i) * w(i) / mean(n, w)
        else:
            per = lambda i: d["reward"].at(i) * w(i)
        args = {k: d[k] for k in ("reward", "action", "action_embed", "pi_b", "action_dist", "position", "p_e_a", "context")}
        B = D.int("B", lo=1, gen=lambda r, e: r.randint(1, 5))
        seed = D.int("seed", lo=0, gen=lambda r, e: r.randint(0, 1000))
        al = D.real("alpha", lo=0, hi=1)

        def body(rt):
            m = SModel(1, "clf")
            new_mock(1, "clf")
            e = rt.new(cls, n_actions=2, pi_a_x_e_estimator=m)
            rt.check_eq("estimate_policy_value", rt.call(e.estimate_policy_value, **args), mean(n, per))
            res = rt.call(e.estimate_interval, alpha=al, n_bootstrap_samples=B, random_state=seed, **args)
            rt.check_eq("estimate_interval", res, ci_spec(rt, boot_means(rt, per, n, B, seed), al, B))
            inputs_unchanged(rt, *args.values())
        return body
    return Unit(f"{cls.__name__}{'' if multi_pos else ', no positions'}{'' if kind == 'float' else ', ' + kind}", build, contracts=VALIDATION, samples=25)


def make_est(cls, sn, full, multi_pos=True):
    """p(e|x,a) unknown: the weights come from the classifier of actions given context and embedding"""
    def build(D):
        n = D.dim("n", 2, 6)
        A = D.dim("A", 2, 2)
        d = dict(n=n, A=A, L=D.dim("L", 1, 2) if multi_pos else ONE)
        d["action"] = D.codes("action", n, A) if full else D.array("action", (n,), "int", lo=0, hiT=A)
        d["reward"] = D.array("reward", (n,))
        d["action_dist"] = D.array("pi", (n, A, d["L"]), simplex=1)
        d["position"] = D.array("pos", (n,), "int", lo=0, hiT=d["L"]) if multi_pos else None
        d.update(pi_b=D.array("pi_b", (n, A, d["L"]), simplex=1, lo=0, lo_strict=True), context=D.array("ctx", (n, D.dim("dc", 1, 2))),
                 action_embed=D.array("embed", (n, D.dim("E", 1, 3)), "int", lo=0, hi=2))
        args = {k: d[k] for k in ("reward", "action", "action_embed", "pi_b", "action_dist", "position", "context")}
        B = D.int("B", lo=1, gen=lambda r, e: r.randint(1, 5))
        seed = D.int("seed", lo=0, gen=lambda r, e: r.randint(0, 1000))
        al = D.real("alpha", lo=0, hi=1)

        def body(rt):
            m = SModel(1, "clf")
            new_mock(1, "clf")
            e = rt.new(cls, n_actions=Sym(A, "int"), pi_a_x_e_estimator=m)
            et = arr_term(d["action_embed"])
            dc = d["context"].axes[1].n
            X = SArr((n, dc + app("onehot_dim", et, sort="I")), lambda i, j: ite(lt(j, dc), d["context"].at(i, j), app("onehot", et, i, j - dc)))
            st = app("sk_fit", num(1), arr_term(X), arr_term(d["action"]))
            u = rt.np(np.unique, d["action"])
            P = lambda i, j: app("sk_proba", st, row_term(X, i), j)
            r = lambda i, a: d["action_dist"].at(i, a, pos_at(d, i)) / d["pi_b"].at(i, a, pos_at(d, i))
            if full:
                w = lambda i: Sum(A, lambda a: r(i, a) * P(i, a))
            else:
                w = lambda i: Sum(A, lambda a: r(i, a) * ite(Exists(term(u.shape[0]), lambda j: eq(u.at(j), a)), P(i, Sum(term(u.shape[0]), lambda j: iv(lt(u.at(j), a)))), ZERO))
            if sn:
                rt.assume(lt(ZERO, Sum(n, w)))
                per = lambda i: d["reward"].at(i) * w(i) / mean(n, w)
            else:
                per = lambda i: d["reward"].at(i) * w(i)
            rt.check_eq("estimate_policy_value", rt.call(e.estimate_policy_value, **args), mean(n, per))
            res = rt.call(e.estimate_interval, alpha=al, n_bootstrap_samples=B, random_state=seed, **args)
            rt.check_eq("estimate_interval", res, ci_spec(rt, boot_means(rt, per, n, B, seed), al, B))
            inputs_unchanged(rt, *args.values())
        return body
    return Unit(f"{cls.__name__} with estimated weights{', every action logged' if full else ''}{'' if multi_pos else ', no positions'}", build, contracts=VALIDATION, samples=25)


C_SLOPE = num(float(np.sqrt(6) - 1))


def accept(theta_i, cnf_i, chosen):
    return and_(*[le(abs_(tj - theta_i), cnf_i + C_SLOPE * cj) for tj, cj in chosen])


def by_decreasing(cands, rt):
    """candidates in decreasing order of their confidence width (all widths distinct)"""
    for j in range(len(cands)):
        for k in range(j):
            rt.assume(ne(cands[j][1], cands[k][1]))
    out = []
    for c in cands:
        p = 0
        while p < len(out) and decide(lt(c[1], out[p][1])):
            p += 1
        out.insert(p, c)
    return out


def slope(rt, est, E, m, greedy):
    """the last candidate accepted by the selection rule"""
    from itertools import combinations
    full = tuple(range(E))
    chosen = [est(full)]
    feat = full
    sizes = range(E - 1, m - 1, -1)
    for size in sizes:
        subs = [tuple(f for f in feat if f != d) for d in feat] if greedy else list(combinations(full, size))
        order = by_decreasing([est(s) + (s,) for s in subs], rt)
        for th, cn, s in order:
            if not decide(accept(th, cn, chosen)):
                return chosen[-1][0]
            chosen.append((th, cn))
        feat = order[-1][2]
    return chosen[-1][0]


def prune(cls, E, m, greedy, multi_pos=True, bounded=None):
    def build(D):
        n, A = D.dim("n", 2, 6), D.dim("A", 2, 3)
        L = D.dim("L", 1, 2) if multi_pos else ONE
        C_ = D.dim("C", 1, 3)
        d = dict(n=n, A=A, L=L)
        d["action"] = D.array("action", (n,), "int", lo=0, hiT=A)
        d["reward"] = D.array("reward", (n,))
        d["action_dist"] = D.array("pi", (n, A, L), simplex=1)
        d["pi_b"] = D.array("pi_b", (n, A, L), simplex=1)
        d["position"] = D.array("pos", (n,), "int", lo=0, hiT=L) if multi_pos else None
        d["action_embed"] = D.array("embed", (n, num(E)), "int", lo=0, hiT=C_)
        d["p_e_a"] = D.array("p_e_a", (A, C_, num(E)), lo=0, lo_strict=True, hi=1)
        args = {k: d[k] for k in ("reward", "action", "action_embed", "pi_b", "action_dist", "position", "p_e_a")}
        delta = D.real("delta", lo=0, lo_strict=True, hi=1, hi_strict=True)
        D.opaque_var(opq_namer)

        def body(rt):
            m_ = SModel(1, "clf")
            new_mock(1, "clf")

            def w(dims):
                def f(i):
                    r = ONE
                    p = pos_at(d, i)
                    for k in dims:
                        g = lambda pol: Sum(A, lambda a: d[pol].at(i, a, p) * d["p_e_a"].at(a, d["action_embed"].at(i, num(k)), num(k)))
                        r = r * (g("action_dist") / g("pi_b"))
                    return d["reward"].at(i) * r
                return f

            def est(dims):
                f = w(dims)
                v = opq(rt, lambda: mean(n, lambda i: (f(i) - mean(n, f)) ** 2))
                return mean(n, f), sqrt(v / (n - ONE)) * app("t_ppf", n - ONE, ONE - term(delta) / num(2))
            e = rt.new(cls, n_actions=2, pi_a_x_e_estimator=m_, embedding_selection_method="greedy" if greedy else "exact", min_emb_dim=m, delta=delta)
            for k in range(E):
                rt.assume(Forall(n, lambda i: lt(ZERO, Sum(A, lambda a: d["pi_b"].at(i, a, pos_at(d, i)) * d["p_e_a"].at(a, d["action_embed"].at(i, num(k)), num(k))))))
            want = slope(rt, est, E, m, greedy)
            rt.check_eq("selected estimate", rt.call(e.estimate_policy_value, **args), want)
            inputs_unchanged(rt, *args.values())
        return body
    return Unit(f"{cls.__name__}, {'greedy' if greedy else 'exact'} embedding selection, {E} dimensions down to {m}{'' if multi_pos else ', no positions'}", build, contracts=VALIDATION, samples=25 if bounded is None else 120, bounded=bounded)


def rejects(cls):
    """both policies' distributions go through the validation contract"""
    def build(D):
        dm = Dims(D)
        n, A, L = dm.n, D.dim("A", 1, 3), D.dim("L", 1, 2)
        act, rew = D.array("action", (n,), "int", gen=g_int(A)), D.array("reward", (dm.like(),))
        pos, pie = D.array("pos", (n,), "int", gen=g_int(L)), D.array("pi", (n, A, L), gen=g_dist)
        pib = D.array("pi_b", (n, A, L), gen=g_dist)
        C_ = D.dim("C", 1, 3)
        extra = dict(action_embed=D.array("embed", (n, num(2)), "int", lo=0, hiT=C_), p_e_a=D.array("p_e_a", (A, C_, num(2)), lo=0, lo_strict=True, hi=1))
        common = dict(action=act, reward=rew, position=pos)

        def body(rt):
            new_mock(1, "clf")
            e = rt.new(cls, n_actions=2, pi_a_x_e_estimator=SModel(1, "clf"))
            ok = spec_outcome(rt, lambda: (C.spec_check_ope_inputs(action_dist=pib, **common), C.spec_check_ope_inputs(action_dist=pie, **common)))
            call = dict(common, pi_b=pib, action_dist=pie, **extra)
            for m in ("estimate_policy_value", "estimate_interval"):
                more = {} if m == "estimate_policy_value" else dict(n_bootstrap_samples=2, random_state=0)
                o = rt.outcome(lambda: rt.call(getattr(e, m), **call, **more))
                if not ok.returned:
                    rt.check(f"{m}: ill-formed input rejected", o.raised(ValueError))
                else:
                    rt.check(f"{m}: well-formed input accepted", o.returned)
                for k in ("reward", "action_embed", "pi_b", "action_dist"):
                    o = rt.outcome(lambda: rt.call(getattr(e, m), **dict(call, **{k: None}), **more))
                    rt.check(f"{m}: missing {k} rejected", o.raised(ValueError))
                o = rt.outcome(lambda: rt.call(getattr(e, m), **dict(call, p_e_a=None), **more))
                rt.check(f"{m}: neither context nor embedding distribution given", o.raised(ValueError))
        return body
    return Unit(f"{cls.__name__} validates its inputs", build, samples=25, contracts=VALIDATION)


def ctor(cls):
    def build(D):
        na = D.int("na", gen=lambda r, e: r.randint(-1, 4))
        me = D.int("me", gen=lambda r, e: r.randint(-1, 3))
        dl = D.real("dl", gen=lambda r, e: r.choice([-0.1, 0.0, 0.05, 1.0, 1.1]))

        def body(rt):
            new_mock(1, "clf"), new_mock(2, "reg")
            m = SModel(1, "clf")
            o = rt.outcome(lambda: rt.new(cls, n_actions=na, pi_a_x_e_estimator=m, min_emb_dim=me, delta=dl))
            bad = or_(lt(term(na), num(2)), lt(term(me), ONE), lt(term(dl), ZERO), lt(ONE, term(dl)))
            if rt.decide(bad):
                rt.check("out of range", o.raised(ValueError))
            else:
                rt.check("in range", o.returned)
            for k in ("exact", "greedy", None):
                rt.check("known selection method", rt.outcome(lambda: rt.new(cls, n_actions=2, pi_a_x_e_estimator=m, embedding_selection_method=k)).returned)
            for k in ("none", "", "Exact", 1):
                rt.check("unknown selection method", rt.outcome(lambda: rt.new(cls, n_actions=2, pi_a_x_e_estimator=m, embedding_selection_method=k)).raised(ValueError))
            rt.check("a regressor is rejected", rt.outcome(lambda: rt.new(cls, n_actions=2, pi_a_x_e_estimator=SModel(2, "reg"))).raised(ValueError))
            for kw in (dict(n_actions="2"), dict(n_actions=2.0), dict(n_actions=2, min_emb_dim=1.0), dict(n_actions=2, delta="0.1"), dict(n_actions=2, delta=None)):
                rt.check("wrong type rejected", rt.outcome(lambda: rt.new(cls, pi_a_x_e_estimator=m, **kw)).raised(TypeError))
        return body
    return Unit(f"{cls.__name__} hyperparameter validation", build, samples=12)


def units():
    us = []
    for cls, sn in ((EM.MarginalizedInverseProbabilityWeighting, False), (EM.SelfNormalizedMarginalizedInverseProbabilityWeighting, True)):
        us += [make(cls, sn), make(cls, sn, False), make(cls, sn, kind="int"), make_est(cls, sn, True), make_est(cls, sn, True, False), make_est(cls, sn, False)]
    us += [f(c) for c in (EM.MarginalizedInverseProbabilityWeighting, EM.SelfNormalizedMarginalizedInverseProbabilityWeighting) for f in (rejects, ctor)]
    M = EM.MarginalizedInverseProbabilityWeighting
    for g in (True, False):
        us += [prune(M, 2, 2, g), prune(M, 2, 1, g), prune(M, 3, 2, g), prune(M, 2, 1, g, multi_pos=False),
               prune(M, 3, 1, g, bounded="three embedding dimensions, sampled data sets")]
    return us
