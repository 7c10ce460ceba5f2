"""Offline policy learners: what they train on, and the policies they return."""
from .common import *
from .contracts import CONTRACTS
from .p12 import soft
from .p13 import check_top
from .p20 import fitted, lam, predicted, feats, weight_of
from .p21 import spread
from obp.policy import IPWLearner, QLearner

I = lambda t: Sym(t, "int")


def data(D, L, binary=False):
    n, A, d = D.dim("n", 2 * L, 2 * L + 3), D.dim("A", max(2, L), max(2, L) + 2), D.dim("d", 1, 2)
    x = D.array("x", (n, d))
    a = D.array("a", (n,), "int", lo=0, hiT=A)
    r = D.array("r", (n,), "int", lo=0, hi=1) if binary else D.array("r", (n,), lo=0)
    ps = D.array("ps", (n,), lo=0, lo_strict=True, hi=1)
    pos = D.array("pos", (n,), "int", lo=0, hi=L - 1, gen=spread(L)) if L > 1 else None
    m = D.dim("m", 1, 3)
    x2 = D.array("x2", (m, d))
    return n, A, d, x, a, r, ps, pos, m, x2


def filled(rt, n, L, pos):
    return L == 1 or rt.decide(and_(*[Exists(n, lambda i, p=p: eq(pos.at(i), num(p))) for p in range(L)]))


def hot(rt, out, i, p):
    """the action with probability one in round i, position p (read off the form of the result)"""
    z = tm.var("act_probe", "I")
    t = nm.norm(out.at(i, z, p))
    if t.op in ("iv", "zero", "eq", "bool"):
        u = t
        while u.op in ("iv", "bool"):
            u = u.args[0]
        if u.op in ("zero", "eq"):
            q = nm.nf(u.args[0] if u.op == "zero" else tm.sub(*u.args))
            for mm, c in q.items():
                if len(mm) == 1 and mm[0][0] is z and mm[0][1] == 1 and abs(c) == 1:
                    return nm.norm(nm.to_term(nm.pscale({k: v for k, v in q.items() if k is not mm}, -1 / c)))
    return None


def one_hot_top(rt, out, m, A, L, v, what):
    """every position of every round holds one action, together the L best of v(i, .) in order"""
    if rt.concrete:
        o = np.asarray(rt.mat(out), float)
        rt.check(f"{what}: shape", o.shape == (int(tm.ev(m, rt.env)), int(tm.ev(A, rt.env)), L))
        rt.check(f"{what}: deterministic", bool(np.all((o == 0) | (o == 1)) and np.all(o.sum(1) == 1)))
        for i in range(o.shape[0]):
            check_top(rt, o[i].argmax(0), lambda b: v(num(i), b), A, num(L), what)
        return
    o = rt.arr(out)
    rt.check(f"{what}: three dimensions", o.ndim == 3)
    rt.check(f"{what}: shape", and_(eq(o.axes[0].length(), m), eq(o.axes[1].length(), A), eq(o.axes[2].length(), num(L))))
    (i,), (b,) = rt.each(m), rt.each(A)
    sel = [hot(rt, o, i, num(p)) for p in range(L)]
    if any(s is None for s in sel):
        raise Unsupported("form of a one-hot distribution")
    for p in range(L):
        rt.check(f"{what}: one action per position", eq(o.at(i, b, num(p)), iv(eq(b, sel[p]))))
    if L == 1:
        fn = lambda k: sel[0]
    else:
        z = tm.var("pos_slot", "I")
        fn = None
        # the selection as a function of the position, when it has one form for all positions
        for p in range(L):
            if sel[p].op != "app" or sel[p].args[0] != "argsort" or sel[p].args[1:3] != sel[0].args[1:3]:
                raise Unsupported("form of a ranking")
            rt.check(f"{what}: order of the positions", eq(sel[p].args[3], sel[0].args[3] + num(p) * (sel[1].args[3] - sel[0].args[3])))
        fn = lambda k: app("argsort", sel[0].args[1], sel[0].args[2], sel[0].args[3] + k * (sel[1].args[3] - sel[0].args[3]), sort="I")
    check_top(rt, SArr((num(L),), fn, "int"), lambda c: v(i, c), A, num(L), what)


def gumbels(rt, seed, m, A):
    return rt.arr(rt.rng(seed).gumbel(size=(I(m), I(A))))


def u_ipw(L, pscore=True):
    def build(D):
        n, A, d, x, a, r, ps, pos, m, x2 = data(D, L)
        tau = D.real("tau", lo=0, lo_strict=True, gen=lambda g, e: g.choice([0.5, 1.0, 3.0]))
        seed = D.int("seed", lo=0, gen=lambda g, v: g.randint(0, 100))
        clf = SModel(1, "clf", A)

        def body(rt):
            g = rt.new(IPWLearner, n_actions=I(A), len_list=L, base_classifier=clf)
            args = dict(context=x, action=a, reward=r)
            if pscore:
                args["pscore"] = ps
            if pos is not None:
                args["position"] = pos
            if not filled(rt, n, L, pos):
                rt.check("no training data at a position is refused", rt.outcome(lambda: rt.call(g.fit, **args)).raised(ValueError))
                return
            rt.call(g.fit, **args)
            s = (lambda i: ps.at(i)) if pscore else (lambda i: ONE / (Max(n, a.at) + ONE))
            st = lambda p: fitted(1, n, None if pos is None else (lambda i: eq(pos.at(i), num(p))), x.at, d, a.at, lambda i: r.at(i) / s(i))
            row = lambda i: lam(d, lambda k: x2.at(i, k))

            def at(p, f):
                out = f(L - 1)
                for q in range(L - 2, -1, -1):
                    out = ite(eq(p, num(q)), f(q), out)
                return out
            cls = lambda i, p: app("sk_cls", st(p), row(i), A, sort="I")
            prob = lambda i, p, b: app("sk_proba", st(p), row(i), b)
            rt.check_eq("greedy policy", rt.call(g.predict, context=x2), SArr((m, A, num(L)), lambda i, b, p: at(p, lambda q: iv(eq(cls(i, q), b)))))
            rt.check_eq("scores", rt.call(g.predict_score, context=x2), SArr((m, A, num(L)), lambda i, b, p: at(p, lambda q: prob(i, q, b))))
            score = lambda i, b: add(*[prob(i, q, b) for q in range(L)]) / num(L)
            gum = gumbels(rt, seed, m, A)
            one_hot_top(rt, rt.call(g.sample_action, context=x2, tau=tau, random_state=seed), m, A, L, lambda i, b: score(i, b) / term(tau) + gum.at(i, b), "sampled ranking")
            o = rt.outcome(lambda: rt.call(g.predict_proba, context=x2, tau=tau))
            if L == 1:
                rt.check("predict_proba", o.returned)
                if o.returned:
                    rt.check_eq("choice probabilities", o.value, SArr((m, A, ONE), lambda i, b, p: soft(A, lambda c: score(i, c) / term(tau))(b)))
            else:
                rt.check("predict_proba is for single positions", o.raised(AssertionError))
            inputs_unchanged(rt, *[v for v in (x, a, r, ps, pos, x2) if v is not None])
        return body
    return Unit(f"IPWLearner: {L} position{'s' * (L > 1)}{'' if pscore else ', no pscore'}", build, samples=20)


def u_q(method, kind, L, pscore=True):
    def build(D):
        n, A, d, x, a, r, ps, pos, m, x2 = data(D, L, kind == "clf")
        tau = D.real("tau", lo=0, lo_strict=True, gen=lambda g, e: g.choice([0.5, 1.0, 3.0]))
        seed = D.int("seed", lo=0, gen=lambda g, v: g.randint(0, 100))
        mod = SModel(1, kind, num(2) if kind == "clf" else None)

        def body(rt):
            g = rt.new(QLearner, n_actions=I(A), len_list=L, base_model=mod, fitting_method=method)
            args = dict(context=x, action=a, reward=r)
            if pscore:
                args["pscore"] = ps
            if pos is not None:
                args["position"] = pos
            if not filled(rt, n, L, pos):
                rt.check("no training data at a position is refused", rt.outcome(lambda: rt.call(g.fit, **args)).raised(ValueError))
                return
            rt.call(g.fit, **args)
            acf = lambda b, k: iv(eq(b, k))
            F, F2 = feats(d, A, x, acf), feats(d, A, x2, acf)
            X = lambda i, k: F(i, a.at(i))(k)
            unif = SArr((n, A, num(L)), lambda *i: ONE / A)
            st = lambda p: fitted(1, n, None if pos is None else (lambda i: eq(pos.at(i), num(p))), X, d + A, r.at, weight_of(method, n, A, ps if pscore else SArr((n,), lambda i: ONE / (Max(n, a.at) + ONE)), unif, a, p))
            q = lambda i, b, p: predicted(kind, st(p), d + A, F2(i, b))

            def at(p, f):
                out = f(L - 1)
                for j in range(L - 2, -1, -1):
                    out = ite(eq(p, num(j)), f(j), out)
                return out
            cube = lambda f: SArr((m, A, num(L)), lambda i, b, p: at(p, lambda j: f(i, b, j)))
            rt.check_eq("estimated rewards", rt.call(g.predict_score, context=x2), cube(q))
            rt.check_eq("greedy policy", rt.call(g.predict, context=x2), cube(lambda i, b, p: iv(eq(ArgMax(A, lambda c: q(i, c, p)), b))))
            rt.check_eq("choice probabilities", rt.call(g.predict_proba, context=x2, tau=tau), cube(lambda i, b, p: soft(A, lambda c: q(i, c, p) / term(tau))(b)))
            gum = gumbels(rt, seed, m, A)
            score = lambda i, b: add(*[q(i, b, p) for p in range(L)]) / num(L)
            one_hot_top(rt, rt.call(g.sample_action, context=x2, tau=tau, random_state=seed), m, A, L, lambda i, b: score(i, b) / term(tau) + gum.at(i, b), "sampled ranking")
            inputs_unchanged(rt, *[v for v in (x, a, r, ps, pos, x2) if v is not None])
        return body
    return Unit(f"QLearner: {method}, {'classifier' if kind == 'clf' else 'regressor'}, {L} position{'s' * (L > 1)}{'' if pscore else ', no pscore'}", build, samples=20)


def units():
    us = [u_ipw(1), u_ipw(2), u_ipw(1, False)]
    for method in ("normal", "iw", "mrdr"):
        us += [u_q(method, "reg", 1), u_q(method, "clf", 2)]
    us += [u_q("iw", "reg", 1, False), u_q("normal", "reg", 2)]
    return us
