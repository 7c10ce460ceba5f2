"""Contextual policies: linear and logistic models of any history, selection of the best actions."""
from .common import *
from .contracts import CONTRACTS
from .p12 import sig
from .p13 import check_top, I
from obp.policy import LinEpsilonGreedy, LinUCB, LinTS
from obp.policy.logistic import LogisticEpsilonGreedy, LogisticUCB, LogisticTS, MiniBatchLogisticRegression

LIN = (LinEpsilonGreedy, LinUCB, LinTS)
LOGIT = (LogisticEpsilonGreedy, LogisticUCB, LogisticTS)


def size(D, A=None):
    d = D.dim("d", 1, 3)
    A = D.dim("A", 2, 4) if A is None else num(A)
    L = D.dim("L", 1, 3)
    D.hyp(le(L, A))
    return d, A, L, D.int("B", lo=1, gen=lambda r, e: r.randint(1, 3)), D.int("seed", lo=0, gen=lambda r, e: r.randint(0, 1000))


def eps_kw(D, cls):
    if cls in (LinTS, LogisticTS):
        return {}
    if cls in (LinUCB, LogisticUCB):
        return dict(epsilon=D.real("eps", lo=0, gen=lambda r, e: r.choice([0.0, 0.3, 0.7, 2.5])))
    return dict(epsilon=D.real("eps", lo=0, hi=1, gen=lambda r, e: r.choice([0.0, 0.3, 0.7, 1.0])))


def g_spd(rng, env, sh, style):
    out = np.zeros(sh)
    for a in range(sh[0]):
        x = rng.randn(rng.randint(0, 4), sh[1])
        out[a] = np.linalg.inv(np.eye(sh[1]) + x.T @ x)
    return out


def lin_state(D, d, A, pre=""):
    return D.array(pre + "Ai", (A, d, d), gen=g_spd), D.array(pre + "b", (d, A))


def u_lin_update(cls):
    """one step from an arbitrary state: every history is a sequence of such steps from the initial state"""
    def build(D):
        d, A, L, B, seed = size(D)
        kw = eps_kw(D, cls)
        Ai, b = lin_state(D, d, A)
        Ti, tb = lin_state(D, d, A, "t")
        ac = D.array("ac", (A,), "int", lo=0)
        t = D.int("t", lo=0, gen=lambda r, e: r.randint(0, 7))
        a, x, c = D.int("a", lo=0, hiT=A, gen=lambda r, e: r.randint(0, int(e["A"]) - 1)), D.real("x"), D.array("c", (ONE, d))

        def body(rt):
            T_, a_, x_ = term(t), term(a), term(x)
            p = rt.new(cls, dim=I(d), n_actions=I(A), len_list=I(L), batch_size=B, random_state=seed, **kw)
            rt.set(p, n_trial=t, A_inv=Ai, b=b, A_inv_temp=Ti, b_temp=tb, action_counts=ac)
            # the pre-state satisfies the representation invariant (symmetric positive definite), used for the denominator
            s = ONE + Sum(d, lambda j: Sum(d, lambda k: c.at(ZERO, j) * Ti.at(a_, j, k) * c.at(ZERO, k)))
            rt.assume(lt(ZERO, s))
            rt.call(p.update_params, action=a, reward=x, context=c)
            left = lambda i: Sum(d, lambda k: Ti.at(a_, i, k) * c.at(ZERO, k))
            right = lambda j: Sum(d, lambda k: c.at(ZERO, k) * Ti.at(a_, k, j))
            newA = SArr((A, d, d), lambda e, i, j: Ti.at(e, i, j) - iv(eq(e, a_)) * left(i) * right(j) / s)
            newb = SArr((d, A), lambda j, e: tb.at(j, e) + iv(eq(e, a_)) * x_ * c.at(ZERO, j))
            rt.check_eq("number of trials", rt.get(p, "n_trial"), I(T_ + ONE))
            rt.check_eq("action counts", rt.get(p, "action_counts"), SArr((A,), lambda e: ac.at(e) + iv(eq(e, a_)), "int"))
            rt.check_eq("pending inverse covariance (Sherman-Morrison)", rt.get(p, "A_inv_temp"), newA)
            rt.check_eq("pending weighted rewards", rt.get(p, "b_temp"), newb)
            if rt.concrete:
                M = np.linalg.inv(rt.mat(Ti)[int(tm.ev(a_, rt.env))]) + rt.mat(c).T @ rt.mat(c)
                rt.check("inverse of the updated matrix", bool(np.allclose(np.linalg.inv(M), rt.mat(rt.get(p, "A_inv_temp"))[int(tm.ev(a_, rt.env))], atol=1e-6)))
            full = rt.decide(eq(app("mod", T_ + ONE, term(B), sort="I"), ZERO))
            rt.check_eq("inverse covariance in use", rt.get(p, "A_inv"), newA if full else Ai)
            rt.check_eq("weighted rewards in use", rt.get(p, "b"), newb if full else b)
            # the parameters in use and the pending ones are separate objects
            rt.call(p.update_params, action=a, reward=x, context=c)
            if not rt.decide(eq(app("mod", T_ + num(2), term(B), sort="I"), ZERO)):
                rt.check_eq("inverse covariance is not aliased", rt.get(p, "A_inv"), newA if full else Ai)
                rt.check_eq("weighted rewards are not aliased", rt.get(p, "b"), newb if full else b)
            inputs_unchanged(rt, c)
        return body
    return Unit(f"{cls.__name__}: update from any state", build, samples=30)


def u_lin_init(cls):
    def build(D):
        d, A, L, B, seed = size(D)
        kw = eps_kw(D, cls)
        Ai, b = lin_state(D, d, A)
        Ti, tb = lin_state(D, d, A, "t")
        ac, t = D.array("ac", (A,), "int", lo=0), D.int("t", lo=0, gen=lambda r, e: r.randint(0, 7))

        def body(rt):
            p = rt.new(cls, dim=I(d), n_actions=I(A), len_list=I(L), batch_size=B, random_state=seed, **kw)
            eye = SArr((A, d, d), lambda e, i, j: iv(eq(i, j)))
            zero = SArr((d, A), lambda i, e: ZERO)

            def fresh(when):
                rt.check_eq(f"{when}: number of trials", rt.get(p, "n_trial"), 0)
                rt.check_eq(f"{when}: action counts", rt.get(p, "action_counts"), SArr((A,), lambda e: ZERO, "int"))
                for k, w in (("A_inv", eye), ("A_inv_temp", eye), ("b", zero), ("b_temp", zero)):
                    rt.check_eq(f"{when}: {k}", rt.get(p, k), w)
            fresh("constructed")
            rt.set(p, n_trial=t, A_inv=Ai, b=b, A_inv_temp=Ti, b_temp=tb, action_counts=ac)
            rt.call(rt.get(p, "random_").rand)
            rt.call(p.initialize)
            fresh("initialised")
            rt.check_eq("initialised: generator restarted", rt.call(rt.get(p, "random_").rand), rt.rng(seed).rand())
        return body
    return Unit(f"{cls.__name__}: initial state", build, samples=15)


def u_lin_select(cls):
    def build(D):
        d, A, L, B, seed = size(D)
        kw = eps_kw(D, cls)
        Ai, b = lin_state(D, d, A)
        Ti, tb = lin_state(D, d, A, "t")
        c = D.array("c", (ONE, d))

        def body(rt):
            p = rt.new(cls, dim=I(d), n_actions=I(A), len_list=I(L), batch_size=B, random_state=seed, **kw)
            rt.set(p, A_inv=Ai, b=b, A_inv_temp=Ti, b_temp=tb)
            x = lambda j: c.at(ZERO, j)
            theta = lambda j, a: Sum(d, lambda k: Ai.at(a, j, k) * b.at(k, a))
            mean_ = lambda a: Sum(d, lambda j: x(j) * theta(j, a))
            r = rt.rng(seed)
            if cls is LinEpsilonGreedy:
                u = r.rand()
                sel = rt.call(p.select_action, context=c)
                if rt.decide(lt(term(kw["epsilon"]), term(u))):
                    check_top(rt, sel, mean_, A, L)
                else:
                    rt.check_eq("uniformly random slate without repetition", sel, r.choice(I(A), size=I(L), replace=False))
            elif cls is LinUCB:
                width = lambda a: sqrt(Sum(d, lambda j: Sum(d, lambda k: x(j) * Ai.at(a, j, k) * x(k))))
                if not rt.concrete:
                    rt.assume(Forall(A, lambda a: le(ZERO, Sum(d, lambda j: Sum(d, lambda k: x(j) * Ai.at(a, j, k) * x(k))))))
                check_top(rt, rt.call(p.select_action, context=c), lambda a: mean_(a) + term(kw["epsilon"]) * width(a), A, L)
            else:
                if rt.concrete:
                    draws = [rt.arr(r.multivariate_normal(SArr((d,), lambda j, a=a: theta(j, num(a))), SArr((d, d), lambda i, j, a=a: Ai.at(num(a), i, j))))
                             for a in range(int(tm.ev(A, rt.env)))]
                    tab = np.array([[float(tm.ev(q.at(num(j)), rt.env)) for j in range(int(tm.ev(d, rt.env)))] for q in draws])
                    xx = rt.mat(c)[0]
                    sc = tab @ xx
                    check_top(rt, rt.call(p.select_action, context=c), lambda a: num(float(sc[int(tm.ev(a, rt.env))])), A, L)
                else:
                    a0 = tm.fresh("b", "I", (ZERO, A))
                    r.counter = Sym(a0, "int")
                    v = rt.arr(r.multivariate_normal(SArr((d,), lambda j: theta(j, a0)), SArr((d, d), lambda i, j: Ai.at(a0, i, j))))
                    check_top(rt, rt.call(p.select_action, context=c), lambda a: Sum(d, lambda j: x(j) * tm.subst(v.at(j), {a0: a})), A, L)
            rt.check_eq("selection leaves A_inv", rt.get(p, "A_inv"), Ai)
            rt.check_eq("selection leaves b", rt.get(p, "b"), b)
            inputs_unchanged(rt, c)
        return body
    return Unit(f"{cls.__name__}: selection", build, samples=40)


def u_lin_reject(cls):
    def build(D):
        d, A, L, B, seed = size(D)
        kw = eps_kw(D, cls)
        m = D.int("m", lo=1, gen=lambda r, e: r.randint(1, 3))
        c, c1 = D.array("c", (term(m), d)), D.array("c1", (d,))

        def body(rt):
            p = rt.new(cls, dim=I(d), n_actions=I(A), len_list=I(L), batch_size=B, random_state=seed, **kw)
            o = rt.outcome(lambda: rt.call(p.select_action, context=c))
            rt.check("one context row at a time", o.returned if rt.decide(eq(term(m), ONE)) else o.raised(ValueError))
            rt.check("context must be two-dimensional", rt.outcome(lambda: rt.call(p.select_action, context=c1)).raised(ValueError))
        return body
    return Unit(f"{cls.__name__}: malformed contexts", build, samples=15)


def u_ctor(cls):
    def build(D):
        d = D.int("d", gen=lambda r, e: r.randint(-1, 2))
        A = D.int("A", gen=lambda r, e: r.randint(0, 4))
        L = D.int("L", gen=lambda r, e: r.randint(-1, 5))
        B = D.int("B", gen=lambda r, e: r.randint(-1, 2))
        e = D.real("eps", gen=lambda r, e: r.choice([-0.1, 0.0, 0.5, 1.0, 1.5]))

        def body(rt):
            A_ = A if cls in LIN else 3
            o = rt.outcome(lambda: rt.new(cls, dim=d, n_actions=A_, len_list=L, batch_size=B))
            bad = or_(lt(term(d), ONE), lt(term(A_), num(2)), lt(term(L), ONE), lt(term(A_), term(L)), lt(term(B), ONE))
            rt.check("range of the sizes", o.raised(ValueError) if rt.decide(bad) else o.returned)
            for kw in (dict(dim="2"), dict(dim=2.0), dict(n_actions=2.0), dict(n_actions=1), dict(len_list=1.0), dict(batch_size=None)):
                kw = {**dict(dim=2, n_actions=2), **kw}
                rt.check("type of the sizes", rt.outcome(lambda: rt.new(cls, **kw)).raised(TypeError, ValueError))
            if cls not in (LinTS, LogisticTS):
                o = rt.outcome(lambda: rt.new(cls, dim=2, n_actions=2, epsilon=e))
                hi = lt(ONE, term(e)) if cls in (LinEpsilonGreedy, LogisticEpsilonGreedy) else FALSE
                rt.check("range of epsilon", o.raised(ValueError) if rt.decide(or_(lt(term(e), ZERO), hi)) else o.returned)
            if cls in LOGIT:
                for k in ("alpha_", "lambda_"):
                    o = rt.outcome(lambda: rt.new(cls, dim=2, n_actions=2, **{k: e}))
                    rt.check(f"range of {k}", o.raised(ValueError) if rt.decide(le(term(e), ZERO)) else o.returned)
        return body
    return Unit(f"{cls.__name__}: constructor validation", build, samples=25)


class Recorder:
    _shimclass_ = True

    def __init__(self):
        self.calls = []

    def fit(self, X, y):
        self.calls.append((X, y))


def u_log_update(cls, pend):
    """one step from a state with pend[a] pending observations of arm a"""
    def build(D):
        d, A, L, B, seed = size(D, 2)
        kw = eps_kw(D, cls)
        t = D.int("t", lo=0, gen=lambda r, e: r.randint(0, 7))
        ac = D.array("ac", (A,), "int", lo=0)
        a, x, c = D.int("a", lo=0, hi=1, gen=lambda r, e: r.randint(0, 1)), D.real("x"), D.array("c", (ONE, d))
        pr = [[D.real(f"r{e}{j}") for j in range(pend[e])] for e in (0, 1)]
        pc = [[D.array(f"c{e}{j}", (ONE, d)) for j in range(pend[e])] for e in (0, 1)]

        def body(rt):
            T_, a_, x_ = term(t), term(a), term(x)
            p = rt.new(cls, dim=I(d), n_actions=2, len_list=1, batch_size=B, random_state=seed, **kw)
            ms = [Recorder(), Recorder()]
            rt.set(p, n_trial=t, action_counts=ac, model_list=ms, reward_lists=[list(v) for v in pr], context_lists=[list(v) for v in pc])
            arm = 0 if rt.decide(eq(a_, ZERO)) else 1
            rt.call(p.update_params, action=arm, reward=x, context=c)
            rt.check_eq("number of trials", rt.get(p, "n_trial"), I(T_ + ONE))
            rt.check_eq("action counts", rt.get(p, "action_counts"), SArr((A,), lambda e: ac.at(e) + iv(eq(e, num(arm))), "int"))
            full = rt.decide(eq(app("mod", T_ + ONE, term(B), sort="I"), ZERO))
            rl, cl = rt.get(p, "reward_lists"), rt.get(p, "context_lists")
            for e in (0, 1):
                rs, cs = pr[e] + ([x] if e == arm else []), pc[e] + ([c] if e == arm else [])
                if full:
                    rt.check(f"arm {e}: fitted once on its own batch", len(ms[e].calls) == (1 if rs else 0))
                    if rs and ms[e].calls:
                        X, y = ms[e].calls[0]
                        k = len(rs)
                        pick = lambda f, i: f[0] if len(f) == 1 else ite(eq(i, ZERO), f[0], pick(f[1:], i - ONE))
                        rt.check_eq(f"arm {e}: contexts", X, SArr((num(k), d), lambda i, j: pick([q.at(ZERO, j) for q in cs], i)))
                        rt.check_eq(f"arm {e}: rewards", y, SArr((num(k),), lambda i: pick([term(q) for q in rs], i)))
                    rt.check(f"arm {e}: batch cleared", len(rl[e]) == 0 and len(cl[e]) == 0)
                else:
                    rt.check(f"arm {e}: not fitted inside a batch", len(ms[e].calls) == 0)
                    rt.check(f"arm {e}: observations kept", len(rl[e]) == len(rs) and len(cl[e]) == len(cs))
                    for j in range(len(rs)):
                        rt.check_eq(f"arm {e}: reward {j}", rl[e][j], rs[j])
                        rt.check_eq(f"arm {e}: context {j}", cl[e][j], cs[j])
        return body
    return Unit(f"{cls.__name__}: update with {pend} pending observations", build, samples=15)


def log_models(D, d, A):
    return [D.array(f"m{e}", (d,)) for e in range(A)], [D.array(f"q{e}", (d,), lo=0, lo_strict=True) for e in range(A)]


def u_log_select(cls, A):
    def build(D):
        d, A_, L, B, seed = size(D, A)
        kw = eps_kw(D, cls)
        m, q = log_models(D, d, A)
        c = D.array("c", (ONE, d))
        al = D.real("al", lo=0, lo_strict=True, gen=lambda r, e: r.choice([0.5, 1.0, 2.0]))
        la = D.real("la", lo=0, lo_strict=True, gen=lambda r, e: r.choice([0.5, 1.0, 2.0]))

        def body(rt):
            p = rt.new(cls, dim=I(d), n_actions=A, len_list=I(L), batch_size=B, random_state=seed, alpha_=al, lambda_=la, **kw)
            for e, mod in enumerate(rt.get(p, "model_list")):
                rt.check_eq("prior mean", rt.get(mod, "_m"), SArr((d,), lambda j: ZERO))
                rt.check_eq("prior precision", rt.get(mod, "_q"), SArr((d,), lambda j: term(la)))
                rt.set(mod, _m=m[e], _q=q[e])
            x = lambda j: c.at(ZERO, j)
            r = rt.rng(seed)
            sg = lambda t: sig(t) if rt.concrete else app("sigmoid", t)
            by_arm = lambda f: lambda a: pick_arm([f(e) for e in range(A)], a)
            prob = lambda e: sg(Sum(d, lambda j: x(j) * m[e].at(j)))
            if cls is LogisticEpsilonGreedy:
                u = r.rand()
                sel = rt.call(p.select_action, context=c)
                if rt.decide(lt(term(kw["epsilon"]), term(u))):
                    check_top(rt, sel, by_arm(prob), A_, L)
                else:
                    rt.check_eq("uniformly random slate without repetition", sel, r.choice(I(A_), size=I(L), replace=False))
            elif cls is LogisticUCB:
                wd = lambda e: sqrt(Sum(d, lambda j: x(j) * x(j) / q[e].at(j)))
                check_top(rt, rt.call(p.select_action, context=c), by_arm(lambda e: prob(e) + term(kw["epsilon"]) * wd(e)), A_, L)
            else:
                ws = []
                for e in range(A):
                    sd = SArr((d,), lambda j, e=e: term(al) / q[e].at(j))
                    ws.append(rt.arr(rt.rng(seed).normal(m[e], sd, size=I(d))))
                check_top(rt, rt.call(p.select_action, context=c), by_arm(lambda e: sg(Sum(d, lambda j: x(j) * ws[e].at(j)))), A_, L)
            for e, mod in enumerate(rt.get(p, "model_list")):
                rt.check_eq("selection leaves the means", rt.get(mod, "_m"), m[e])
                rt.check_eq("selection leaves the precisions", rt.get(mod, "_q"), q[e])
            inputs_unchanged(rt, c)
        return body
    return Unit(f"{cls.__name__}: selection among {A} actions", build, samples=30, contracts=("obp.utils:sigmoid",), needs=("obp.utils:sigmoid",))


def pick_arm(vs, a):
    r = vs[-1]
    for e in range(len(vs) - 2, -1, -1):
        r = ite(eq(a, num(e)), vs[e], r)
    return r


def u_log_init(cls):
    def build(D):
        d, A, L, B, seed = size(D, 2)
        kw = eps_kw(D, cls)
        m, q = log_models(D, d, 2)
        ac, t, x, c = D.array("ac", (A,), "int", lo=0), D.int("t", lo=0, gen=lambda r, e: r.randint(0, 7)), D.real("x"), D.array("c", (ONE, d))

        def body(rt):
            p = rt.new(cls, dim=I(d), n_actions=2, len_list=1, batch_size=B, random_state=seed, **kw)

            def fresh(when):
                rt.check_eq(f"{when}: number of trials", rt.get(p, "n_trial"), 0)
                rt.check_eq(f"{when}: action counts", rt.get(p, "action_counts"), SArr((A,), lambda e: ZERO, "int"))
                rt.check(f"{when}: nothing pending", [len(v) for v in rt.get(p, "reward_lists")] == [0, 0] and [len(v) for v in rt.get(p, "context_lists")] == [0, 0])
                for mod in rt.get(p, "model_list"):
                    rt.check_eq(f"{when}: prior mean", rt.get(mod, "_m"), SArr((d,), lambda j: ZERO))
                    rt.check_eq(f"{when}: prior precision", rt.get(mod, "_q"), SArr((d,), lambda j: ONE))
            fresh("constructed")
            for e, mod in enumerate(rt.get(p, "model_list")):
                rt.set(mod, _m=m[e], _q=q[e])
            rt.set(p, n_trial=t, action_counts=ac, reward_lists=[[x], []], context_lists=[[c], []])
            rt.call(rt.get(p, "random_").rand)
            rt.call(p.initialize)
            fresh("initialised")
            rt.check_eq("initialised: generator restarted", rt.call(rt.get(p, "random_").rand), rt.rng(seed).rand())
        return body
    return Unit(f"{cls.__name__}: initial state", build, samples=10)


def u_log_fit():
    """maximum a posteriori fit of 0/1 rewards and Laplace update of the precision"""
    def build(D):
        n, d = D.dim("n", 1, 4), D.dim("d", 1, 3)
        X, y = D.array("X", (n, d), gen=lambda rng, env, sh, style: rng.randn(*sh)), D.array("y", (n,), "int", lo=0, hi=1)
        m = D.array("m", (d,), gen=lambda rng, env, sh, style: rng.randn(*sh))
        q, w = D.array("q", (d,), lo=0, lo_strict=True, gen=lambda rng, env, sh, style: rng.uniform(0.3, 2, size=sh)), D.array("w", (d,))
        al = D.real("al", lo=0, lo_strict=True, gen=lambda r, e: 1.0)
        seed = D.int("seed", lo=0, gen=lambda r, e: r.randint(0, 1000))

        def body(rt):
            mod = rt.new(MiniBatchLogisticRegression, lambda_=al, alpha=al, dim=I(d), random_state=seed)
            rt.set(mod, _m=m, _q=q)
            s = lambda i: num(2) * y.at(i) - ONE
            z = lambda v, i: Sum(d, lambda j: v(j) * X.at(i, j))
            loss = lambda v: Sum(d, lambda j: q.at(j) * (v(j) - m.at(j)) ** 2) / num(2) + Sum(n, lambda i: log(ONE + exp(ZERO - s(i) * z(v, i))))
            grad = lambda v, j: q.at(j) * (v(j) - m.at(j)) - Sum(n, lambda i: s(i) * X.at(i, j) / (ONE + exp(s(i) * z(v, i))))
            if rt.concrete:
                rt.call(mod.fit, X, y)
                mh = rt.arr(rt.get(mod, "_m"))
                g = max(abs(float(tm.ev(grad(mh.at, num(j)), rt.env))) for j in range(int(tm.ev(d, rt.env))))
                rt.check("the mean maximises the posterior of the rewards", g < 1e-3)
            else:
                from pv.shim_misc import MINIMIZE
                del MINIMIZE[:]
                rt.call(mod.fit, X, y)
                rt.check("one minimisation", len(MINIMIZE) == 1)
                fun, x0, args, jac = MINIMIZE[0]
                rt.check_eq("starting point", x0, m)
                new = rt.get(mod, "_m")
                rt.set(mod, _m=m, _q=rt.get(mod, "_q"))
                q1 = rt.get(mod, "_q")
                rt.set(mod, _q=q)
                rt.check_eq("objective", rt.call(fun, w, *args), Sym(loss(w.at), "float"))
                rt.check_eq("gradient", rt.call(jac, w, *args), SArr((d,), lambda j: grad(w.at, j)))
                rt.set(mod, _m=new, _q=q1)
                rt.check_eq("the mean is the minimiser", new, SArr((d,), lambda j: app("minimiser0", j)))
                mh = rt.arr(new)
            P = lambda i: ONE / (ONE + exp(ZERO - z(mh.at, i)))
            rt.check_eq("Laplace update of the precision", rt.get(mod, "_q"), SArr((d,), lambda j: q.at(j) + Sum(n, lambda i: P(i) * (ONE - P(i)) * X.at(i, j) ** 2)))
            inputs_unchanged(rt, X, y)
        return body
    return Unit("MiniBatchLogisticRegression: fit", build, samples=30)


def units():
    us = []
    for c in LIN:
        us += [u_lin_update(c), u_lin_init(c), u_lin_select(c), u_ctor(c)]
    us += [u_lin_reject(LinEpsilonGreedy), u_lin_reject(LinUCB)]
    for c in LOGIT:
        us += [u_log_select(c, 2), u_log_select(c, 3), u_log_init(c), u_ctor(c)]
    us += [u_log_update(LogisticTS, (i, j)) for i in (0, 1, 2) for j in (0, 1)] + [u_log_update(LogisticEpsilonGreedy, (1, 1)), u_log_update(LogisticUCB, (1, 1)), u_log_fit()]
    return us
