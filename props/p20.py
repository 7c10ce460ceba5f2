"""Reward models: what is trained on which rows with which weights, and who predicts for whom (cross-fitting)."""
from .common import *
from .contracts import CONTRACTS
from pv.values import Axis
from obp.ope import RegressionModel, SlateRegressionModel

I = lambda t: Sym(t, "int")


def feats(d, e, ctx, ac):
    """feature row [context, action context]"""
    return lambda i, a: (lambda k: ite(lt(k, d), ctx.at(i, k), ac(a, k - d)))


def masked(n, guard, fn, *more, kind="float"):
    return SArr((Axis(n, guard),) + more, fn, kind)


def fitted(ident, n, guard, X, dX, y, w=None):
    """the (uninterpreted) model fitted on the rows satisfying guard"""
    a = [num(ident), arr_term(masked(n, guard, X, dX)), arr_term(masked(n, guard, y))]
    if w is not None:
        a.append(arr_term(masked(n, guard, w)))
    return app("sk_fit" if w is None else "sk_fitw", *a)


def lam(n, f):
    k = tm.fresh("z", "I", (ZERO, n))
    return tm.bind_var("lam", n, k, tm.as_num(f(k)))


def predicted(kind, st, dX, f):
    r = lam(dX, f)
    return app("sk_pred", st, r) if kind == "reg" else app("sk_proba", st, r, ONE)


def inputs(D, L, dist=True, positions=True, ac=True, pscore=True, binary=False):
    n, A, d = D.dim("n", 3, 7), D.dim("A", 2, 3), D.dim("d", 1, 2)
    x = D.array("x", (n, d))
    a = D.array("a", (n,), "int", lo=0, hiT=A)
    r = D.array("r", (n,), "int", lo=0, hi=1) if binary else D.array("r", (n,))
    pos = D.array("pos", (n,), "int", lo=0, hi=L - 1, gen=lambda rng, env, sh, style: np.arange(sh[0]) % L) if positions else None
    ps = D.array("ps", (n,), lo=0, lo_strict=True, hi=1) if pscore else None
    pi = D.array("pi", (n, A, num(L)), simplex=1) if dist else None
    e = D.dim("e", 1, 2) if ac else A
    acx = D.array("ac", (A, e)) if ac else None
    return n, A, d, x, a, r, pos, ps, pi, e, acx


def model(D, kind):
    return SModel(1, kind, num(2) if kind == "clf" else None)


def weight_of(method, n, A, ps, pi, a, p):
    if method == "normal":
        return None
    s = (lambda i: ps.at(i)) if ps is not None else (lambda i: ONE / A)
    if method == "iw":
        return lambda i: pi.at(i, a.at(i), num(p)) / s(i)
    return lambda i: pi.at(i, a.at(i), num(p)) * (ONE - s(i)) / (s(i) * s(i))


def u_fit(method, kind, L, positions, folds, ac=True, pscore=True):
    def build(D):
        n, A, d, x, a, r, pos, ps, pi, e, acx = inputs(D, L, method != "normal", positions, ac, pscore, kind == "clf")
        seed = D.int("seed", lo=0, gen=lambda r, v: r.randint(0, 100)) if folds > 1 else None
        if kind == "clf":
            D.hyp(Exists(n, lambda i: eq(r.at(i), ZERO)))
            D.hyp(Exists(n, lambda i: eq(r.at(i), ONE)))
        m = model(D, kind)

        def body(rt):
            kw = dict(base_model=m, n_actions=I(A), len_list=L, fitting_method=method)
            if ac:
                kw["action_context"] = acx
            g = rt.new(RegressionModel, **kw)
            args = dict(context=x, action=a, reward=r)
            if ps is not None:
                args["pscore"] = ps
            if positions:
                args["position"] = pos
            if pi is not None:
                args["action_dist"] = pi
            acf = (lambda b, k: acx.at(b, k)) if ac else (lambda b, k: iv(eq(b, k)))
            F = feats(d, e, x, acf)
            X = lambda i, k: F(i, a.at(i))(k)
            fold = lambda i: app("kfold", term(seed), num(folds), n, i, sort="I")
            at_pos = (lambda i, p: eq(pos.at(i), num(p))) if positions and L > 1 else (lambda i, p: TRUE)

            def state(p, f):
                gd = (lambda i: and_(ne(fold(i), num(f)), at_pos(i, p))) if f is not None else (lambda i: at_pos(i, p))
                if f is None and (L == 1 or not positions):
                    gd = None
                return fitted(1, n, gd, X, d + e, lambda i: r.at(i), weight_of(method, n, A, ps, pi, a, p))
            fs = [None] if folds == 1 else range(folds)
            # every position must have training data in every training set
            for p in range(L):
                for f in fs:
                    gd = (lambda i: and_(ne(fold(i), num(f)), at_pos(i, p))) if f is not None else (lambda i: at_pos(i, p))
                    if not rt.decide(Exists(n, gd)):
                        o = rt.outcome(lambda: rt.call(g.fit_predict, **args, **(dict(n_folds=folds, random_state=seed) if folds > 1 else {})))
                        rt.check("no training data at a position is refused", o.raised(ValueError))
                        return
            if folds == 1:
                rt.call(g.fit, **args)
                got = rt.call(g.predict, context=x)
            else:
                got = rt.call(g.fit_predict, n_folds=folds, random_state=seed, **args)

            def want(i, b, p):
                out = None
                for q in range(L):
                    v = None
                    for f in fs:
                        u = predicted(kind, state(q, f), d + e, F(i, b))
                        v = u if v is None else ite(eq(fold(i), num(f)), u, v)
                    out = v if out is None else ite(eq(p, num(q)), v, out)
                return out
            rt.check_eq("predictions", got, SArr((n, A, num(L)), want))
            if folds == 1:
                g2 = rt.new(RegressionModel, **kw)
                rt.check_eq("fit_predict without folds", rt.call(g2.fit_predict, **args), SArr((n, A, num(L)), want))
            inputs_unchanged(rt, *[v for v in (x, a, r, ps, pos, pi) if v is not None])
        return body
    name = f"RegressionModel: {method}, {'classifier' if kind == 'clf' else 'regressor'}, {L} position{'s' if L > 1 else ''}{'' if positions else ' (not given)'}, {folds} fold{'s' if folds > 1 else ''}"
    return Unit(name + ("" if ac else ", one-hot actions") + ("" if pscore else ", no pscore"), build, samples=25)


def u_valid():
    def build(D):
        A, L = D.int("A", gen=lambda r, v: r.randint(0, 5)), D.int("L", hi=0, gen=lambda r, v: r.randint(-3, 1))
        m = model(D, "reg")

        def body(rt):
            o = rt.outcome(lambda: rt.new(RegressionModel, base_model=m, n_actions=A, len_list=2))
            rt.check("at least two actions", o.raised(ValueError) if rt.decide(lt(term(A), num(2))) else o.returned)
            o = rt.outcome(lambda: rt.new(RegressionModel, base_model=m, n_actions=3, len_list=L))
            rt.check("at least one position", o.raised(ValueError))
            for k in (1, 2, 3):
                rt.check("one to three positions", rt.outcome(lambda: rt.new(RegressionModel, base_model=m, n_actions=3, len_list=k)).returned)
            for kw in (dict(n_actions="3"), dict(n_actions=3.0), dict(n_actions=3, len_list=1.0), dict(n_actions=3, len_list="1")):
                rt.check("types of the sizes", rt.outcome(lambda: rt.new(RegressionModel, base_model=m, **kw)).raised(TypeError))
            for bad in ("awesome", None, 1, ["normal"]):
                rt.check("fitting method", rt.outcome(lambda: rt.new(RegressionModel, base_model=m, n_actions=3, fitting_method=bad)).raised(ValueError))
            for bad in ("model", None):
                rt.check("base model", rt.outcome(lambda: rt.new(RegressionModel, base_model=bad, n_actions=3)).raised(ValueError))
        return body
    return Unit("RegressionModel: constructor validation", build, samples=25)


def u_inputs(method):
    def build(D):
        L = 2
        n, A, d, x, a, r, pos, ps, pi, e, acx = inputs(D, L, True)
        bad = D.array("bad", (n, A, num(L)), lo=0, hi=1)
        two = D.array("two", (n, A), simplex=1)
        B, n2 = D.dim("B", 1, 3), D.dim("n2", 1, 8)
        other = D.array("other", (n2, B, num(L)), simplex=1)
        far = D.array("far", (n,), "int", lo=0, hi=3, gen=lambda rng, env, sh, style: rng.randint(0, 4, size=sh))
        k = D.int("k", gen=lambda r, v: r.randint(-1, 2))
        m = model(D, "reg")

        def body(rt):
            mk = lambda: rt.new(RegressionModel, base_model=m, n_actions=I(A), len_list=L, fitting_method=method, action_context=acx)
            base = dict(context=x, action=a, reward=r, pscore=ps, position=pos, action_dist=pi)
            full = rt.decide(and_(*[Exists(n, lambda i, p=p: eq(pos.at(i), num(p))) for p in range(L)]))
            for call in ("fit", "fit_predict"):
                run = lambda **kw: rt.outcome(lambda: rt.call(getattr(mk(), call), **{**base, **kw}))
                rt.check(f"{call}: well-formed input", run().returned if full else run().raised(ValueError))
                if full:
                    o = run(position=far)
                    if rt.decide(Exists(n, lambda i: le(num(L), far.at(i)))):
                        rt.check(f"{call}: position beyond len_list", o.raised(ValueError))
                if method == "normal":
                    continue
                rt.check(f"{call}: action_dist is required", run(action_dist=None).raised(ValueError))
                rt.check(f"{call}: action_dist has three dimensions", run(action_dist=two).raised(ValueError))
                if full:
                    o = run(action_dist=other)
                    ok = rt.decide(and_(eq(n2, n), eq(B, A)))
                    rt.check(f"{call}: shape of action_dist", o.returned if ok else o.raised(ValueError))
                    dist = rt.decide(Forall(n, lambda i: Forall(num(L), lambda p: eq(Sum(A, lambda b: bad.at(i, b, p)), ONE))))
                    if not rt.concrete and not dist and not rt.decide(not_(Forall(n, lambda i: Forall(num(L), lambda p: close(Sum(A, lambda b: bad.at(i, b, p))))))):
                        return
                    if not rt.concrete or dist or not rt.decide(Forall(n, lambda i: Forall(num(L), lambda p: close(Sum(A, lambda b: bad.at(i, b, p)))))):
                        o = run(action_dist=bad)
                        rt.check(f"{call}: action_dist sums to one", o.returned if dist else o.raised(ValueError))
            if full:
                o = rt.outcome(lambda: rt.call(mk().fit_predict, n_folds=k, **base)) if rt.concrete else None
                if o is not None and not rt.decide(le(ONE, term(k))):
                    rt.check("number of folds", o.raised(ValueError))
                rt.check("type of the number of folds", rt.outcome(lambda: rt.call(mk().fit_predict, n_folds="2", **base)).raised(TypeError))
                rt.check("at least one fold", rt.outcome(lambda: rt.call(mk().fit_predict, n_folds=0, **base)).raised(ValueError))
        return body
    return Unit(f"RegressionModel: input validation, {method}", build, samples=20)


def close(t):
    """np.allclose(t, 1)"""
    return le(abs_(t - ONE), num(1e-8) + num(1e-5))


# ------------------------------------------------------------------ slates
def u_slate(method, L):
    def build(D):
        n, U, d = D.dim("n", 1, 4), D.dim("U", 2, 3), D.dim("d", 1, 2)
        x = D.array("x", (n, d))
        a = D.array("a", (n * num(L),), "int", lo=0, hiT=U)
        r = D.array("r", (n * num(L),))
        ps = D.array("ps", (n * num(L),), lo=0, lo_strict=True, hi=1)
        es = D.array("es", (n * num(L),), lo=0, lo_strict=True, hi=1)
        pi, pi3 = flat_dist(D, n, L, U)
        m = model(D, "reg")

        def body(rt):
            g = rt.new(SlateRegressionModel, base_model=m, len_list=L, n_unique_action=I(U), fitting_method=method)
            args = dict(context=x, action=a, reward=r, pscore_cascade=ps, evaluation_policy_pscore_cascade=es, evaluation_policy_action_dist=pi)
            at = lambda v, i, p: v.at(i * num(L) + num(p))

            def row(i, p, last):
                """[context_i, actions of slate i before position p, last]"""
                return lambda k: ite(lt(k, d), x.at(i, k), ite(lt(k - d, num(p)), a.at(i * num(L) + k - d), last))
            states = {}

            def pred(p, i, b):
                return app("sk_pred", states[p], lam(d + num(p + 1), row(i, p, b)))
            for p in range(L - 1, -1, -1):
                X = lambda i, k: ite(lt(k, d), x.at(i, k), a.at(i * num(L) + k - d))
                if p == L - 1:
                    y = lambda i, p=p: at(r, i, p)
                else:
                    y = lambda i, p=p: at(r, i, p) + Sum(U, lambda b: pi3.at(i, num(p + 1), b) * pred(p + 1, i, b))
                w = (lambda i, p=p: at(es, i, p) / at(ps, i, p)) if method == "iw" else (lambda i: ONE)
                states[p] = fitted(1, n, None, X, d + num(p + 1), y, w)
            rt.call(g.fit, **args)
            got = rt.call(g.predict, context=x, action=a)

            def want(i, p, b):
                out = pred(L - 1, i, b)
                for q in range(L - 2, -1, -1):
                    out = ite(eq(p, num(q)), pred(q, i, b), out)
                return out
            flat = rt.arr(got)
            rt.check("one dimension", flat.ndim == 1)
            rt.check("size", eq(flat.axes[0].length(), n * num(L) * U))
            cube = np.asarray(got).reshape(-1, L, int(rt.mat(I(U)))) if rt.concrete else rt.np(np.reshape, got, (I(n), L, I(U)))
            rt.check_eq("predictions", cube, SArr((n, num(L), U), want))
        return body
    return Unit(f"SlateRegressionModel: {method}, slates of {L}", build, samples=20)


def flat_dist(D, n, L, U):
    """a flattened action distribution, and its entries by slate, position and action"""
    def gen(rng, env, sh, style):
        u = env.vars["U"]
        return np.concatenate([rng.multinomial(16, np.ones(u) / u) / 16 for _ in range(sh[0] // u)])
    pi = D.array("pi", (n * num(L) * U,), gen=gen)
    D.hyp(Forall(n * num(L), lambda j: eq(Sum(U, lambda b: pi.at(j * U + b)), ONE)))

    class at3:
        at = staticmethod(lambda i, p, b: pi.at((i * num(L) + p) * U + b))
    return pi, at3


def u_slate_valid():
    def build(D):
        L = 2
        n, U, d = D.dim("n", 1, 3), D.dim("U", 2, 3), D.dim("d", 1, 2)
        x = D.array("x", (n, d))
        N = n * num(L)
        a = D.array("a", (N,), "int", lo=0, hiT=U)
        r = D.array("r", (N,))
        ps = D.array("ps", (N,), lo=0, lo_strict=True, hi=1)
        pi, pi3 = flat_dist(D, n, L, U)
        anyps = D.array("aps", (N,), gen=lambda rng, env, sh, style: rng.choice([-0.5, 0.0, 0.5, 1.0, 1.5], size=sh))
        anya = D.array("anya", (N,), "int", gen=lambda rng, env, sh, style: rng.randint(-1, 4, size=sh))
        k = D.dim("k", 1, 6)
        short = D.array("short", (k,), lo=0, lo_strict=True, hi=1)
        shorta = D.array("shorta", (k,), "int", lo=0, hiT=U)
        m = model(D, "reg")

        def body(rt):
            g = rt.new(SlateRegressionModel, base_model=m, len_list=L, n_unique_action=I(U))
            base = dict(context=x, action=a, reward=r, pscore_cascade=ps, evaluation_policy_pscore_cascade=ps, evaluation_policy_action_dist=pi)
            run = lambda **kw: rt.outcome(lambda: rt.call(g.fit, **{**base, **kw}))
            bad = rt.decide(Exists(N, lambda i: or_(le(anyps.at(i), ZERO), lt(ONE, anyps.at(i)))))
            for key in ("pscore_cascade", "evaluation_policy_pscore_cascade"):
                o = run(**{key: anyps})
                rt.check(f"range of {key}", o.raised(ValueError) if bad else o.returned)
            bada = rt.decide(Exists(N, lambda i: or_(lt(anya.at(i), ZERO), le(U, anya.at(i)))))
            o = run(action=anya)
            rt.check("range of action", o.raised(ValueError) if bada else o.returned)
            same = rt.decide(eq(k, N))
            if not same:
                for key in ("reward", "pscore_cascade", "evaluation_policy_pscore_cascade"):
                    rt.check(f"size of {key}", run(**{key: short}).raised(ValueError))
                rt.check("size of action", run(action=shorta).raised(ValueError))
            rt.check("integer actions", run(action=r).raised(ValueError))
            rt.check("size of the action distribution", run(evaluation_policy_action_dist=ps).raised(ValueError))
            rt.call(g.fit, **base)
            if not same:
                rt.check("size of action in predict", rt.outcome(lambda: rt.call(g.predict, context=x, action=shorta)).raised(ValueError))
            for bad_ in ("mrdr", None, 1):
                rt.check("fitting method", rt.outcome(lambda: rt.new(SlateRegressionModel, base_model=m, len_list=L, n_unique_action=I(U), fitting_method=bad_)).raised(ValueError))
            rt.check("regressors only", rt.outcome(lambda: rt.new(SlateRegressionModel, base_model=clf, len_list=L, n_unique_action=I(U))).raised(ValueError))
            rt.check("base model", rt.outcome(lambda: rt.new(SlateRegressionModel, base_model="x", len_list=L, n_unique_action=I(U))).raised(ValueError))
        clf = SModel(2, "clf", num(2))
        return body
    return Unit("SlateRegressionModel: validation", build, samples=25)


def units():
    us = [u_valid(), u_slate_valid()] + [u_inputs(k) for k in ("normal", "iw", "mrdr")]
    us += [u_slate(k, L) for k in ("normal", "iw") for L in (1, 2, 3)]
    for method in ("normal", "iw", "mrdr"):
        for kind in ("reg", "clf"):
            us.append(u_fit(method, kind, 2, True, 1))
            us.append(u_fit(method, kind, 2, True, 2))
        us.append(u_fit(method, "reg", 1, False, 3))
        us.append(u_fit(method, "reg", 1, False, 1, ac=False, pscore=False))
    return us
