"""Synthetic data with several loggers, action embeddings or continuous actions."""
from .common import *
from .contracts import CONTRACTS, VALIDATION
from .p12 import arr, soft, first_above
from .p16 import limited, tn_ab
from pv.shim_misc import UFun
from pv.shim_sk import arr_term as _at
from scipy.stats import truncnorm
import obp.dataset.synthetic as S
import obp.dataset.synthetic_continuous as SC
from obp.dataset import SyntheticMultiLoggersBanditDataset, SyntheticBanditDatasetWithActionEmbeds, SyntheticContinuousBanditDataset

I = lambda t: Sym(t, "int")
seed_of = lambda D: D.int("seed", lo=0, gen=lambda r, e: r.randint(0, 1000))


def base(D, binary, rf):
    k = {"n": D.dim("n", 1, 6), "A": D.dim("A", 2, 4), "d": D.dim("d", 1, 3), "seed": seed_of(D)}
    k["std"] = D.real("std", lo=0, lo_strict=True, gen=lambda r, e: r.choice([0.1, 0.5, 1.0, 3.0]))
    k["rf"] = UFun(1, binary) if rf else None
    kw = dict(n_actions=I(k["A"]), dim_context=I(k["d"]), reward_type="binary" if binary else "continuous", reward_function=k["rf"],
              reward_std=k["std"], random_state=k["seed"])
    return k, kw


# ------------------------------------------------------------------------------ several loggers
def u_multi(K, binary, rf, limit, ac=True):
    def build(D):
        k, kw = base(D, binary, rf)
        n, A, d, seed = k["n"], k["A"], k["d"], k["seed"]
        betas = [D.real(f"beta{j}", gen=lambda r, e: r.choice([-3.0, -0.5, 0.0, 1.0, 2.5])) for j in range(K)]
        rhos = [D.real(f"rho{j}", lo=0, lo_strict=j == 0, gen=lambda r, e, j=j: r.choice([0.1103, 0.2207, 0.5311, 1.013, 3.027] + [0.0] * (j > 0))) for j in range(K)]
        acx = D.array("ac", (A, D.dim("da", 1, 2))) if ac else None
        nd = D.int("nd", lo=1, gen=lambda r, e: r.randint(1, max(int(tm.ev(A, e)), 2))) if limit else None
        if limit:
            D.hyp(lt(term(nd), A))

        def body(rt):
            ds = rt.new(SyntheticMultiLoggersBanditDataset, betas=list(betas), rhos=list(rhos), action_context=acx, **(dict(n_deficient_actions=nd) if limit else {}), **kw)
            fb = rt.call(ds.obtain_batch_bandit_feedback, I(n))
            cf = arr(rt, rt.rng(seed).uniform(size=I(A))) if not rf else None
            r = rt.rng(seed)
            ctx = arr(rt, r.normal(size=(I(n), I(d))))
            acm = acx if ac else SArr((A, A), lambda i, j: iv(eq(i, j)), "int")
            raw = SArr((n, A), lambda i, a: cf.at(a)) if cf is not None else arr(rt, rt.call(k["rf"], context=ctx, action_context=acm, random_state=seed))
            std = term(k["std"])
            q = raw if binary else SArr((n, A), lambda i, a: app("tn_mean", *tn_ab(raw.at(i, a), std), raw.at(i, a), std))
            # blocks of the loggers, in order
            tot = term(rhos[0])
            for x in rhos[1:]:
                tot = tot + term(x)
            share = [term(x) / tot for x in rhos]
            if rt.concrete:         # rounding is done on the floating-point shares
                w_ = np.array([float(rt.mat(x)) for x in rhos])
                share = [num(float(v)) for v in w_ / w_.sum()]
            ends, left = [], n
            for j in range(K - 1):
                m = min2(app("round", n * share[j], sort="I"), left)
                left = left - m
                ends.append(n - left)
            st = lambda i: block(i, ends, [num(j) for j in range(K)])
            be = lambda i: block(i, ends, [term(b) for b in betas])
            if limit:
                state = r.gumbel(size=(I(n), I(A)))
                noise = arr(rt, state)
                lim = lambda beta: limited(rt, Fixed(noise), n, A, nd, lambda i, a: beta(i) * q.at(i, a))
                pi = lim(be)
                one = [lim(lambda i, b=b: term(b)) for b in betas]
            else:
                pi = SArr((n, A), lambda i, a: soft(A, lambda j: be(i) * q.at(i, j))(a))
                one = [SArr((n, A), lambda i, a, b=b: soft(A, lambda j: term(b) * q.at(i, j))(a)) for b in betas]
            avg = lambda i, a: add(ZERO, *[share[j] * one[j].at(i, a) for j in range(K)])
            u = arr(rt, rt.rng(seed).uniform(size=I(n)))
            # the probabilities of the drawing logger, block by block, decide the action
            act = arr(rt, fb["action"])
            rt.check_eq("rounds of the loggers", fb["stratum_idx"], SArr((n,), st, "int"))
            rt.check_eq("n_rounds", fb["n_rounds"], I(n))
            rt.check_eq("n_actions", fb["n_actions"], I(A))
            rt.check("n_strata", fb["n_strata"] == K)
            rt.check_eq("context", fb["context"], ctx)
            rt.check_eq("action_context", fb["action_context"], acm)
            rt.check("no positions", fb["position"] is None)
            rt.check_eq("expected_reward", fb["expected_reward"], q)
            rt.check_eq("each round's logger", fb["pi_b"], SArr((n, A, ONE), lambda i, a, p: pi.at(i, a)))
            rt.check_eq("mixture of the loggers", fb["pi_b_avg"], SArr((n, A, ONE), lambda i, a, p: avg(i, a)))
            rt.check_eq("actions drawn from the round's logger", fb["action"], SArr((n,), lambda i: first_above(pi.at, A, i, u.at(i)), "int"))
            rt.check_eq("pscore", fb["pscore"], SArr((n,), lambda i: pi.at(i, act.at(i))))
            rt.check_eq("pscore_avg", fb["pscore_avg"], SArr((n,), lambda i: avg(i, act.at(i))))
            qa = SArr((n,), lambda i: raw.at(i, act.at(i)))
            if binary:
                rew = arr(rt, r.binomial(1, qa))
            else:
                lo, hi = [SArr((n,), lambda i, j=j: tn_ab(qa.at(i), std)[j]) for j in (0, 1)]
                rew = arr(rt, rt.np(truncnorm.rvs, a=lo, b=hi, loc=qa, scale=k["std"], size=I(n), random_state=seed))
            rt.check_eq("reward", fb["reward"], rew)
            rt.check("keys", len(fb) == 14)
        return body
    return Unit(f"{K} logger{'s' * (K > 1)}: {'binary' if binary else 'continuous'} rewards, {'given' if rf else 'context-free'} reward function{', deficient actions' if limit else ''}{'' if ac else ', one-hot action context'}",
                build, samples=20, contracts=VALIDATION)


class Fixed:
    def __init__(self, a):
        self.a = a

    def gumbel(self, size=None):
        return self.a


def block(i, ends, vals):
    r = vals[-1]
    for e, v in list(zip(ends, vals))[::-1]:
        r = ite(lt(i, e), v, r)
    return r


def u_multi_ctor():
    def build(D):
        A = D.int("A", gen=lambda r, e: r.randint(0, 4))
        nd = D.int("nd", gen=lambda r, e: r.randint(-1, 4))
        std = D.real("std", gen=lambda r, e: r.choice([-1.0, 0.0, 1.0]))
        rho = D.real("rho", gen=lambda r, e: r.choice([-0.5, 0.0, 0.5]))
        n = D.int("n", gen=lambda r, e: r.randint(-1, 3))

        def body(rt):
            good = dict(n_actions=2, betas=[1, 2.0], rhos=[0.5, 0.5], random_state=1)
            mk = lambda **k: rt.outcome(lambda: rt.new(SyntheticMultiLoggersBanditDataset, **dict(good, **k)))
            bad = or_(lt(term(A), num(2)), lt(term(nd), ZERO), lt(term(A) - ONE, term(nd)), lt(term(std), ZERO), lt(term(rho), ZERO))
            o = mk(n_actions=A, n_deficient_actions=nd, reward_std=std, rhos=[0.5, rho])
            if rt.decide(bad):
                rt.check("out of range rejected", o.raised(ValueError))
            else:
                rt.check("in range accepted", o.returned)
            for k in (dict(betas=[1.0]), dict(rhos=[1.0]), dict(rhos=[0.2, 0.3, 0.5]), dict(random_state=None), dict(reward_type="x"), dict(dim_context=0)):
                rt.check("inconsistent settings rejected", mk(**k).raised(ValueError))
            for k in (dict(betas=None), dict(betas=1.0), dict(betas=(1, 2)), dict(betas=[1, "2"]), dict(betas=[1, None]), dict(rhos=None), dict(rhos=0.5), dict(rhos=[0.5, "0.5"]), dict(n_actions="2"), dict(dim_context=1.5)):
                rt.check("wrong type rejected", mk(**k).raised(TypeError))
            ds = rt.new(SyntheticMultiLoggersBanditDataset, **good)
            rt.check("length of the list", rt.get(ds, "len_list") == 1 and rt.get(ds, "n_strata") == 2)
            if rt.decide(lt(term(n), ONE)):
                rt.check("number of rounds", rt.outcome(lambda: rt.call(ds.obtain_batch_bandit_feedback, n)).raised(ValueError))
            for x in ("1", None, 1.5):
                rt.check("type of the number of rounds", rt.outcome(lambda: rt.call(ds.obtain_batch_bandit_feedback, x)).raised(TypeError))
        return body
    return Unit("several loggers: validation", build, samples=25)


# ------------------------------------------------------------------------------ action embeddings
def u_embed(cats, hidden, irrelevant, binary, bf, limit):
    def build(D):
        k, kw = base(D, binary, True)
        n, A, d, seed = k["n"], k["A"], k["d"], k["seed"]
        C, P = D.dim("C", 1, 3), D.dim("P", 1, 2)
        beta = D.real("beta", gen=lambda r, e: r.choice([-3.0, -0.5, 0.0, 1.0, 2.5]))
        ps = D.real("ps", lo=0, gen=lambda r, e: r.choice([0.0, 0.5, 1.0, 2.0]))
        nd = D.int("nd", lo=1, gen=lambda r, e: r.randint(1, max(int(tm.ev(A, e)), 2))) if limit else None
        if limit:
            D.hyp(lt(term(nd), A))
        acx = D.array("ac", (A, D.dim("da", 1, 2)))
        pol = UFun(2, False) if bf else None

        def body(rt):
            ds = rt.new(SyntheticBanditDatasetWithActionEmbeds, beta=beta, behavior_policy_function=pol, action_context=acx, n_cat_per_dim=I(C), latent_param_mat_dim=I(P),
                        n_cat_dim=cats, p_e_a_param_std=ps, n_unobserved_cat_dim=hidden, n_irrelevant_cat_dim=irrelevant, **(dict(n_deficient_actions=nd) if limit else {}), **kw)
            fb = rt.call(ds.obtain_batch_bandit_feedback, I(n))
            T_, h, ir = cats + 1, hidden + 1, irrelevant + 1
            r = rt.rng(seed)
            lat = arr(rt, r.normal(size=(T_, I(C), I(P))))
            lg = arr(rt, r.normal(scale=ps, size=(I(A), I(C), T_)))
            pea = SArr((A, C, num(T_)), lambda a, c, e: soft(C, lambda j: lg.at(a, j, e))(c))
            ctx = arr(rt, r.normal(size=(I(n), I(d))))
            al = arr(rt, r.uniform(size=T_ - ir))
            w = arr(rt, r.dirichlet(alpha=al, size=1))
            if rt.concrete and np.isnan(rt.mat(w)).any():
                w = SArr((ONE, num(T_ - ir)), lambda i, j: num(1 / (T_ - ir)))      # underflow of the floating-point weights
            imp = [ZERO] * ir + [w.at(ZERO, num(j)) for j in range(T_ - ir)]
            qe = [arr(rt, rt.call(k["rf"], context=ctx, action_context=SArr((C, P), lambda c, p, e=e: lat.at(num(e), c, p)), random_state=seed + e)) for e in range(T_)]
            q = SArr((n, A), lambda i, a: add(ZERO, ZERO, *[imp[e] * Sum(C, lambda c: qe[e].at(i, c) * pea.at(a, c, num(e))) for e in range(T_)]))
            lo = q if not bf else arr(rt, rt.call(pol, context=ctx, action_context=acx, random_state=seed))
            be = term(beta)
            logit = lambda i, a: be * lo.at(i, a)
            pi = limited(rt, r, n, A, nd, logit) if limit else SArr((n, A), lambda i, a: soft(A, lambda j: logit(i, j))(a))
            rt.check_eq("context", fb["context"], ctx)
            rt.check_eq("n_rounds", fb["n_rounds"], I(n))
            rt.check_eq("n_actions", fb["n_actions"], I(A))
            rt.check("no positions", fb["position"] is None)
            m = T_ - h
            rt.check_eq("distribution of the embeddings given the action", fb["p_e_a"], SArr((A, C, num(m)), lambda a, c, e: pea.at(a, c, e + num(h))))
            sh = rt.arr(fb["q_x_e"])
            rt.check("q_x_e: shape", and_(eq(sh.axes[0].length(), n), eq(sh.axes[1].length(), C), eq(sh.axes[2].length(), num(m))))
            for (i,), (c,) in [((i,), (c,)) for i in rt.each(n) for c in rt.each(C)]:
                for e in range(m):
                    rt.check("rewards given context and embedding", eq(sh.at(i, c, num(e)), qe[e + h].at(i, c)))
            rt.check_eq("expected reward marginalises the embeddings", fb["expected_reward"], q)
            rt.check_eq("behaviour policy", fb["pi_b"], SArr((n, A, ONE), lambda i, a, p: pi.at(i, a)))
            u = arr(rt, rt.rng(seed).uniform(size=I(n)))
            act = arr(rt, fb["action"])
            rt.check_eq("actions", fb["action"], SArr((n,), lambda i: first_above(pi.at, A, i, u.at(i)), "int"))
            rt.check_eq("pscore", fb["pscore"], SArr((n,), lambda i: pi.at(i, act.at(i))))
            uu = [arr(rt, rt.rng(e).uniform(size=I(n))) for e in range(T_)]
            emb = [SArr((n,), lambda i, e=e: first_above(lambda i, c: pea.at(act.at(i), c, num(e)), C, i, uu[e].at(i)), "int") for e in range(T_)]
            got = rt.arr(fb["action_embed"])
            rt.check("action_embed: shape", and_(eq(got.axes[0].length(), n), eq(got.axes[1].length(), num(m))))
            for i in rt.each(n):
                for e in range(m):
                    rt.check("embeddings of the chosen action", eq(got.at(i, num(e)), emb[e + h].at(i)))
            vv = [arr(rt, rt.rng(seed + e).uniform(size=I(A))) for e in range(T_)]
            gc = rt.arr(fb["action_context"])
            rt.check("action_context: shape", and_(eq(gc.axes[0].length(), A), eq(gc.axes[1].length(), num(m))))
            for a in rt.each(A):
                for e in range(m):
                    rt.check("one embedding per action as its context", eq(gc.at(a, num(e)), first_above(lambda a, c: pea.at(a, c, num(e + h)), C, a, vv[e + h].at(a))))
            fact = SArr((n,), lambda i: add(ZERO, ZERO, *[imp[e] * qe[e].at(i, emb[e].at(i)) for e in range(T_)]))
            if binary:
                rew = arr(rt, r.binomial(1, fact))
            else:
                rew = arr(rt, r.normal(loc=fact, scale=k["std"], size=I(n)))
            rt.check_eq("reward of context and embedding", fb["reward"], rew)
            rt.check("keys", len(fb) == 13)
        return body
    return Unit(f"action embeddings: {cats} dimension{'s' * (cats > 1)}, {hidden} unobserved, {irrelevant} irrelevant, {'binary' if binary else 'continuous'} rewards, {'given' if bf else 'softmax'} behaviour policy{', deficient actions' if limit else ''}",
                build, samples=15, contracts=VALIDATION)


def u_embed_ctor():
    def build(D):
        names = ("n_cat_per_dim", "latent_param_mat_dim", "n_cat_dim")
        vs = {x: D.int(x, gen=lambda r, e: r.randint(0, 4)) for x in names}
        un, irr = D.int("un", gen=lambda r, e: r.randint(-1, 4)), D.int("irr", gen=lambda r, e: r.randint(-1, 4))
        std = D.real("std", gen=lambda r, e: r.choice([-1.0, 0.0, 1.0]))

        def body(rt):
            cls = SyntheticBanditDatasetWithActionEmbeds
            mk = lambda **k: rt.outcome(lambda: rt.new(cls, **dict(dict(n_actions=2, random_state=1), **k)))
            if not rt.concrete:
                # sizes fixed; ranges of the other settings
                bad = or_(lt(term(std), ZERO), lt(term(un), ZERO), lt(num(2), term(un)), lt(term(irr), ZERO), lt(num(2), term(irr)))
                o = mk(n_cat_dim=2, n_cat_per_dim=2, latent_param_mat_dim=2, p_e_a_param_std=std, n_unobserved_cat_dim=un, n_irrelevant_cat_dim=irr)
            else:
                v = {x: term(t) for x, t in vs.items()}
                bad = or_(*[lt(t, ONE) for t in v.values()], lt(term(std), ZERO), lt(term(un), ZERO), lt(v["n_cat_dim"], term(un)), lt(term(irr), ZERO), lt(v["n_cat_dim"], term(irr)))
                o = mk(p_e_a_param_std=std, n_unobserved_cat_dim=un, n_irrelevant_cat_dim=irr, **vs)
            if rt.decide(bad):
                rt.check("out of range rejected", o.raised(ValueError))
            else:
                rt.check("in range accepted", o.returned)
            for k in (dict(n_cat_dim=1.0), dict(n_cat_per_dim="3"), dict(latent_param_mat_dim=None), dict(p_e_a_param_std="1"), dict(n_unobserved_cat_dim=0.5), dict(n_irrelevant_cat_dim=None), dict(n_actions="2")):
                rt.check("wrong type rejected", mk(**k).raised(TypeError))
            for k in (dict(n_actions=1), dict(reward_type="x"), dict(random_state=None), dict(n_cat_dim=0), dict(n_cat_per_dim=0), dict(latent_param_mat_dim=0)):
                rt.check("invalid settings rejected", mk(**k).raised(ValueError))
            rt.check("default reward function, binary rewards", rt.get(rt.new(cls, n_actions=2, random_state=1), "reward_function") is S.logistic_reward_function)
            rt.check("default reward function, continuous rewards", rt.get(rt.new(cls, n_actions=2, random_state=1, reward_type="continuous"), "reward_function") is S.linear_reward_function)
            ds = rt.new(cls, n_actions=2, random_state=1)
            for x in (0, -1):
                rt.check("number of rounds", rt.outcome(lambda: rt.call(ds.obtain_batch_bandit_feedback, x)).raised(ValueError))
            for x in ("1", None, 1.5):
                rt.check("type of the number of rounds", rt.outcome(lambda: rt.call(ds.obtain_batch_bandit_feedback, x)).raised(TypeError))
        return body
    return Unit("action embeddings: validation", build, samples=25)


# ------------------------------------------------------------------------------ continuous actions
class UCont:
    """a user-supplied function of contexts (and actions) with one value per round"""
    _symbolic_ = True

    def __init__(self, ident):
        self.ident = ident
        nm.DECL["ucont%d" % ident] = {}

    def __call__(self, context, action=None, random_state=None):
        c = to_arr(context).copy()
        ts = [_at(c)] + ([] if action is None else [_at(to_arr(action).copy())])
        rs = term(random_state) if random_state is not None else num(-1)
        return SArr((c.axes[0],), lambda i: app("ucont%d" % self.ident, *ts, rs, i))

    def materialize(self, rt):
        def f(context, action=None, random_state=None):
            c = np.asarray(context, float)
            s = (self.ident + 1) * 0.37 + (0.0 if random_state is None else 0.01 * int(random_state))
            return 2 * np.sin(c.sum(1) * 1.3 + s + (0 if action is None else np.asarray(action, float)))
        return f


def u_cont(rf, bf):
    def build(D):
        n, d, seed = D.dim("n", 1, 5), D.dim("d", 1, 3), seed_of(D)
        an = D.real("an", lo=0, lo_strict=True, gen=lambda r, e: r.choice([0.1, 1.0, 2.0]))
        rn = D.real("rn", lo=0, gen=lambda r, e: r.choice([0.0, 0.1, 1.0]))
        lo, hi = D.real("lo", gen=lambda r, e: r.choice([-2.0, -1.0, 0.0])), D.real("hi", gen=lambda r, e: r.choice([0.5, 1.0, 10.0]))
        D.hyp(lt(term(lo), term(hi)))
        f, g = UCont(1) if rf else None, UCont(2) if bf else None
        n2 = D.dim("n2", 1, 4)
        ctx2, act2 = D.array("ctx2", (n2, d)), D.array("act2", (n2,))

        def body(rt):
            ds = rt.new(SyntheticContinuousBanditDataset, dim_context=I(d), action_noise=an, reward_noise=rn, min_action_value=lo, max_action_value=hi,
                        reward_function=f, behavior_policy_function=g, random_state=seed)
            fb = rt.call(ds.obtain_batch_bandit_feedback, I(n))
            r = rt.rng(seed)
            ctx = arr(rt, r.normal(size=(I(n), I(d))))
            l, h, s = term(lo), term(hi), term(an)
            act = arr(rt, fb["action"])
            if bf:
                e = arr(rt, rt.call(g, context=ctx, random_state=seed))
                ab = [SArr((n,), lambda i, t=t: (t - e.at(i)) / s) for t in (l, h)]
                rt.check_eq("actions", fb["action"], arr(rt, rt.np(truncnorm.rvs, *ab, loc=e, scale=an, size=I(n), random_state=seed)))
                rt.check_eq("density of the actions", fb["pscore"], SArr((n,), lambda i: app("tn_pdf", ab[0].at(i), ab[1].at(i), e.at(i), s, act.at(i))))
            else:
                u = arr(rt, rt.rng(seed).uniform(size=I(n)))
                rt.check_eq("actions", fb["action"], SArr((n,), lambda i: l + (h - l) * u.at(i)))
                rt.check_eq("density of the actions", fb["pscore"], SArr((n,), lambda i: ONE / (h - l)))
            q = lambda c, a, m: arr(rt, rt.call(f, context=c, action=a, random_state=seed)).at if rf else (lambda i: num(2) * tm.power(abs_(a.at(i)), num(1.5)) - num(5) * a.at(i))
            qq = q(ctx, act, n)
            z = arr(rt, r.normal(scale=rn, size=I(n)))
            rt.check_eq("context", fb["context"], ctx)
            rt.check_eq("expected reward", fb["expected_reward"], SArr((n,), qq))
            rt.check_eq("reward", fb["reward"], SArr((n,), lambda i: qq(i) + z.at(i)))
            rt.check_eq("n_rounds", fb["n_rounds"], I(n))
            rt.check("no positions", fb["position"] is None and len(fb) == 7)
            v = rt.call(ds.calc_ground_truth_policy_value, context=ctx2, action=act2)
            q2 = q(ctx2, act2, n2)
            rt.check_eq("ground truth", v, mean(n2, lambda i: q2(i)))
            inputs_unchanged(rt, ctx2, act2)
        return body
    return Unit(f"continuous actions: {'given' if rf else 'context-free'} reward function, {'given' if bf else 'uniform'} behaviour policy", build, samples=25)


def u_cont_ctor():
    def build(D):
        d = D.int("d", gen=lambda r, e: r.randint(-1, 3))
        an, rn = [D.real(x, gen=lambda r, e: r.choice([-0.1, 0.0, 1.0])) for x in ("an", "rn")]
        lo, hi = [D.real(x, gen=lambda r, e: r.choice([-1.0, 0.0, 1.0])) for x in ("lo", "hi")]
        n, m, dc = D.dim("n", 1, 3), D.dim("m", 1, 3), D.dim("dc", 1, 2)
        ctx, act = D.array("ctx", (n, dc)), D.array("act", (m,))

        def body(rt):
            cls = SyntheticContinuousBanditDataset
            mk = lambda **k: rt.outcome(lambda: rt.new(cls, **k))
            o = mk(dim_context=d, action_noise=an, reward_noise=rn, min_action_value=lo, max_action_value=hi)
            if rt.decide(or_(lt(term(d), ONE), lt(term(an), ZERO), lt(term(rn), ZERO), le(term(hi), term(lo)))):
                rt.check("out of range rejected", o.raised(ValueError))
            else:
                rt.check("in range accepted", o.returned)
            rt.check("seed required", mk(random_state=None).raised(ValueError))
            for k in (dict(dim_context="1"), dict(dim_context=1.0), dict(action_noise="1"), dict(action_noise=None), dict(reward_noise="1"), dict(min_action_value="0"), dict(max_action_value=None)):
                rt.check("wrong type rejected", mk(**k).raised(TypeError))
            ds = rt.new(cls, dim_context=1, min_action_value=0, max_action_value=1)
            for x in (0, -1):
                rt.check("number of rounds", rt.outcome(lambda: rt.call(ds.obtain_batch_bandit_feedback, x)).raised(ValueError))
            for x in ("1", None, 1.5):
                rt.check("type of the number of rounds", rt.outcome(lambda: rt.call(ds.obtain_batch_bandit_feedback, x)).raised(TypeError))
            gt = lambda **k: rt.outcome(lambda: rt.call(ds.calc_ground_truth_policy_value, **dict(dict(context=ctx, action=act), **k)))
            o = gt()
            if rt.decide(and_(eq(n, m), eq(dc, ONE))):
                rt.check("consistent data accepted", o.returned)
            else:
                rt.check("inconsistent data rejected", o.raised(ValueError))
            for k in (dict(context=act), dict(action=ctx), dict(context=None), dict(action="x")):
                rt.check("wrong shape rejected", gt(**k).raised(ValueError))
            for fn in (SC.linear_reward_funcion_continuous, SC.quadratic_reward_funcion_continuous):
                o = rt.outcome(lambda: rt.call(fn, context=ctx, action=act, random_state=1))
                if rt.decide(eq(n, m)):
                    rt.check(f"{fn.__name__}: accepted", o.returned)
                else:
                    rt.check(f"{fn.__name__}: different lengths rejected", o.raised(ValueError))
                for k in (dict(context=act, action=act), dict(context=ctx, action=ctx), dict(context=None, action=act)):
                    rt.check(f"{fn.__name__}: wrong shape rejected", rt.outcome(lambda: rt.call(fn, **k)).raised(ValueError))
            for fn in (SC.linear_behavior_policy_continuous, SC.linear_synthetic_policy_continuous, SC.threshold_synthetic_policy_continuous, SC.sign_synthetic_policy_continuous):
                for x in (act, None, "x"):
                    rt.check(f"{fn.__name__}: wrong shape rejected", rt.outcome(lambda: rt.call(fn, context=x)).raised(ValueError))
        return body
    return Unit("continuous actions: validation", build, samples=25)


def u_cont_funs():
    def build(D):
        n, d, seed = D.dim("n", 1, 5), D.dim("d", 1, 3), seed_of(D)
        x, a = D.array("x", (n, d)), D.array("a", (n,))

        def body(rt):
            dot = lambda i, c: Sum(d, lambda j: x.at(i, j) * c.at(j))
            r = rt.rng(seed)
            c, pb = arr(rt, r.normal(size=I(d))), arr(rt, r.uniform(size=2))
            rt.check_eq("linear reward", rt.call(SC.linear_reward_funcion_continuous, context=x, action=a, random_state=seed),
                        SArr((n,), lambda i: tm.power(abs_(dot(i, c) - a.at(i)), pb.at(ZERO)) + pb.at(ONE)))
            r = rt.rng(seed)
            c1, c2, c3 = [arr(rt, r.normal(size=I(d))) for _ in range(3)]
            ca = arr(rt, r.normal(size=1)).at(ZERO)
            rt.check_eq("quadratic reward", rt.call(SC.quadratic_reward_funcion_continuous, context=x, action=a, random_state=seed),
                        SArr((n,), lambda i: ca * a.at(i) * dot(i, c1) + dot(i, c2) * a.at(i) + (a.at(i) - dot(i, c3)) * (a.at(i) - dot(i, c3))))
            r = rt.rng(seed)
            c, b = arr(rt, r.normal(size=I(d))), arr(rt, r.uniform(size=1))
            rt.check_eq("linear behaviour policy", rt.call(SC.linear_behavior_policy_continuous, context=x, random_state=seed), SArr((n,), lambda i: dot(i, c) + b.at(ZERO)))
            mu = lambda i: Sum(d, lambda j: x.at(i, j)) / d
            rt.check_eq("linear policy", rt.call(SC.linear_synthetic_policy_continuous, context=x), SArr((n,), mu))
            sg = lambda t: ite(lt(ZERO, t), ONE, ite(lt(t, ZERO), num(-1), ZERO))
            rt.check_eq("threshold policy", rt.call(SC.threshold_synthetic_policy_continuous, context=x), SArr((n,), lambda i: ONE + sg(mu(i) - num(1.5))))
            rt.check_eq("sign policy", rt.call(SC.sign_synthetic_policy_continuous, context=x), SArr((n,), lambda i: app("sin", mu(i))))
            inputs_unchanged(rt, x, a)
        return body
    return Unit("continuous actions: reward functions and policies", build, samples=25)


def units():
    us = [u_multi(K, b, r, False) for K in (1, 2, 3) for b in (True, False) for r in (True, False)]
    us += [u_multi(2, b, True, True) for b in (True, False)] + [u_multi(2, True, False, False, False)]
    us += [u_multi_ctor(), u_embed_ctor()]
    us += [u_embed(1, 0, 0, b, f, l) for b in (True, False) for f in (True, False) for l in (True, False)]
    us += [u_embed(2, h, ir, True, False, False) for h, ir in ((0, 0), (1, 0), (0, 1), (1, 1))] + [u_embed(2, 1, 0, False, False, False)]
    us += [u_cont(r, b) for r in (True, False) for b in (True, False)] + [u_cont_ctor(), u_cont_funs()]
    return us
