"""Propensity and importance-weight models: training rows, features, and who predicts for whom."""
from .common import *
from pv import values as V
from .p20 import fitted, lam, masked, close
from .p12 import first_above
from obp.ope import PropensityScoreEstimator, ImportanceWeightEstimator

I = lambda t: Sym(t, "int")


def spread(L):
    """positions cycling through 0..L-1"""
    return lambda rng, env, sh, style: rng.permutation(np.arange(sh[0]) % L)


def data(D, L, calib=0):
    lo = 2 if not calib else 6
    n, A, d = D.dim("n", max(lo, 2 * L), max(lo, 2 * L) + 4), D.dim("A", 2, 3), D.dim("d", 1, 2)
    x = D.array("x", (n, d))
    a = D.array("a", (n,), "int", lo=0, hiT=A, gen=(lambda rng, env, sh, style: np.arange(sh[0]) % env.vars["A"]) if calib else None)
    pos = D.array("pos", (n,), "int", lo=0, hi=L - 1, gen=spread(L)) if L > 1 else None
    return n, A, d, x, a, pos


def kf(seed, folds, n):
    return lambda i: app("kfold", term(seed), num(folds), n, i, sort="I")


def sets(rt, L, folds, n, seed, pos):
    """(guard of the training rows of position p when predicting fold f, fold of a row, folds)"""
    fold = kf(seed, folds, n) if folds > 1 else None

    def guard(p, f):
        if f is None and pos is None:
            return None
        return lambda i: and_(TRUE if f is None else ne(fold(i), num(f)), TRUE if pos is None else eq(pos.at(i), num(p)))
    fs = [None] if folds == 1 else list(range(folds))
    for p in range(L):
        for f in fs:
            g = guard(p, f)
            if g is not None and not rt.decide(Exists(n, g)):
                return guard, fold, fs, False
    return guard, fold, fs, True


def check_rows(rt, name, n, got, L, fs, fold, pos, value):
    """got[i] == value(i, p, f) for the row's own position p and fold f, case by case"""
    g = rt.arr(got)
    rt.check(name + ": shape", and_(eq(num(g.ndim), ONE), eq(g.axes[0].length(), n)))
    for i in rt.each(n):
        t = g.at(i)
        for p in range(L):
            for f in fs:
                hs = [] if pos is None else [eq(pos.at(i), num(p))] + [ne(pos.at(i), num(q)) for q in range(L) if q != p]
                hs += [] if f is None else [eq(fold(i), num(f))] + [ne(fold(i), num(q)) for q in fs if q != f]
                u = t
                for h in hs:
                    u = V.given(h, u)
                rt.check(name, implies(and_(*hs), eq(u, value(i, p, f))))


def u_ps(L, folds, calib, evaluate=False):
    def build(D):
        n, A, d, x, a, pos = data(D, L, calib)
        seed = D.int("seed", lo=0, gen=lambda r, v: r.randint(0, 100)) if folds > 1 else None
        m = SModel(1, "clf", A)

        def body(rt):
            g = rt.new(PropensityScoreEstimator, base_model=m, n_actions=I(A), len_list=L, calibration_cv=calib)
            args = dict(context=x, action=a)
            if pos is not None:
                args["position"] = pos
            more = dict(n_folds=folds, random_state=seed) if folds > 1 else {}
            if evaluate:
                more["evaluate_model_performance"] = True
            guard, fold, fs, ok = sets(rt, L, folds, n, seed, pos)
            if not ok:
                rt.check("no training data at a position is refused", rt.outcome(lambda: rt.call(g.fit_predict, **args, **more)).raised(ValueError))
                return
            st = lambda p, f: fitted(1 + 1000 * calib * (calib > 1), n, guard(p, f), x.at, d, a.at)
            proba = lambda i, p, f, c: app("sk_proba", st(p, f), lam(d, lambda k: x.at(i, k)), c)
            same = lambda name, got: check_rows(rt, name, n, got, L, fs, fold, pos, lambda i, p, f: proba(i, p, f, a.at(i)))
            same("propensities", rt.call(g.fit_predict, **args, **more))
            if folds == 1:
                same("predict", rt.call(g.predict, **args))
                g2 = rt.new(PropensityScoreEstimator, base_model=m, n_actions=I(A), len_list=L, calibration_cv=calib)
                rt.call(g2.fit, **args)
                same("fit, then predict", rt.call(g2.predict, **args))
                if L == 1:
                    same("explicit zero positions", rt.call(g2.predict, position=rt.np(np.zeros, I(n), int), **args))
            if evaluate:
                k = 0
                res = rt.get(g, "eval_result")
                for f in fs:
                    for p in range(L):
                        gd = lambda i: and_(eq(fold(i), num(f)), TRUE if pos is None else eq(pos.at(i), num(p)))
                        if not rt.decide(Exists(n, gd)):
                            continue
                        rt.check_eq("evaluation labels", res["y"][k], masked(n, gd, a.at, kind="int"))
                        rt.check_eq("evaluation probabilities", res["proba"][k], masked(n, gd, lambda i, c: proba(i, p, f, c), A))
                        k += 1
                rt.check("one result per fold and position", len(res["y"]) == k and len(res["proba"]) == k)
            inputs_unchanged(rt, *[v for v in (x, a, pos) if v is not None])
        return body
    return Unit(f"PropensityScoreEstimator: {L} position{'s' * (L > 1)}, {folds} fold{'s' * (folds > 1)}" + (f", calibrated" if calib > 1 else "") + (", evaluated" if evaluate else ""), build, samples=20)


def u_iw(method, L, folds, calib, ac=True, evaluate=False):
    def build(D):
        n, A, d, x, a, pos = data(D, L, calib)
        pi = D.array("pi", (n, A, num(L)), simplex=1)
        e = D.dim("e", 1, 2) if ac else A
        acx = D.array("ac", (A, e)) if ac else None
        seed = D.int("seed", lo=0, gen=lambda r, v: r.randint(0, 100))
        m = SModel(1, "clf", num(2))

        def body(rt):
            kw = dict(base_model=m, n_actions=I(A), len_list=L, calibration_cv=calib, fitting_method=method)
            if ac:
                kw["action_context"] = acx
            g = rt.new(ImportanceWeightEstimator, **kw)
            args = dict(context=x, action=a, action_dist=pi)
            if pos is not None:
                args["position"] = pos
            more = dict(n_folds=folds) if folds > 1 else {}
            if evaluate:
                more["evaluate_model_performance"] = True
            guard, fold, fs, ok = sets(rt, L, folds, n, seed, pos)
            if not ok:
                rt.check("no training data at a position is refused", rt.outcome(lambda: rt.call(g.fit_predict, random_state=seed, **args, **more)).raised(ValueError))
                return
            onehot = not ac or method == "raw"
            w = A if onehot else e
            acf = (lambda b, k: iv(eq(b, k))) if onehot else (lambda b, k: acx.at(b, k))

            def rows(p, gd):
                """behaviour rows, then evaluation rows, of the rounds satisfying gd"""
                if method == "sample":
                    rank = (lambda i: i) if gd is None else (lambda i: Sum(i, lambda k: iv(gd(k))))
                    cnt = n if gd is None else Sum(n, lambda k: iv(gd(k)))
                    u = rt.arr(rt.rng(seed).uniform(size=I(cnt)))
                    ut = (lambda i: u.at(rank(i))) if rt.concrete or gd is None else (lambda i: app("rng_unif", term(seed), ZERO, rank(i)))
                    ev = lambda i, k: acf(first_above(lambda i, b: pi.at(i, b, num(p)), A, i, ut(i)), k)
                else:
                    ev = lambda i, k: pi.at(i, k, num(p))
                X = lambda j, k: ite(lt(j, n), ite(lt(k, d), x.at(j, k), acf(a.at(j), k - d)), ite(lt(k, d), x.at(j - n, k), ev(j - n, k - d)))
                gd2 = None if gd is None else (lambda j: or_(and_(lt(j, n), gd(j)), and_(not_(lt(j, n)), gd(j - n))))
                return X, gd2
            label = lambda j: ite(lt(j, n), ZERO, ONE)

            def st(p, f):
                X, gd2 = rows(p, guard(p, f))
                return fitted(1 + 1000 * calib * (calib > 1), n + n, gd2, X, d + w, label)

            def value(i, p, f):
                q = app("sk_proba", st(p, f), lam(d + w, lambda k: ite(lt(k, d), x.at(i, k), acf(a.at(i), k - d))), ONE)
                return q / (ONE - q)
            same = lambda name, got: check_rows(rt, name, n, got, L, fs, fold, pos, value)
            same("importance weights", rt.call(g.fit_predict, random_state=seed, **args, **more))
            if folds == 1:
                args.pop("action_dist")
                same("predict", rt.call(g.predict, **args))
                if L == 1:
                    same("explicit zero positions", rt.call(g.predict, position=rt.np(np.zeros, I(n), int), **args))
            if evaluate:
                k = 0
                res = rt.get(g, "eval_result")
                for f in fs:
                    for p in range(L):
                        gd = lambda i: and_(eq(fold(i), num(f)), TRUE if pos is None else eq(pos.at(i), num(p)))
                        if not rt.decide(Exists(n, gd)):
                            continue
                        X, gd2 = rows(p, gd)
                        rt.check_eq("evaluation labels", res["y"][k], masked(n + n, gd2, label, kind="int"))
                        rt.check_eq("evaluation probabilities", res["proba"][k], masked(n + n, gd2, lambda j: app("sk_proba", st(p, f), lam(d + w, lambda c: X(j, c)), ONE)))
                        k += 1
                rt.check("one result per fold and position", len(res["y"]) == k and len(res["proba"]) == k)
            inputs_unchanged(rt, *[v for v in (x, a, pos, pi) if v is not None])
        return body
    return Unit(f"ImportanceWeightEstimator: {method}, {L} position{'s' * (L > 1)}, {folds} fold{'s' * (folds > 1)}" + (", calibrated" if calib > 1 else "") + ("" if ac else ", one-hot actions") + (", evaluated" if evaluate else ""), build, samples=15)


def u_new(which, L):
    """prediction for rounds other than the training rounds"""
    def build(D):
        n, A, d, x, a, pos = data(D, L)
        m_ = D.dim("m", 1, 4)
        x2 = D.array("x2", (m_, d))
        a2 = D.array("a2", (m_,), "int", lo=0, hiT=A)
        pos2 = D.array("pos2", (m_,), "int", lo=0, hi=L - 1, gen=lambda rng, env, sh, style: rng.randint(0, L, size=sh)) if L > 1 else None
        pi = D.array("pi", (n, A, num(L)), simplex=1)
        m = SModel(1, "clf", A if which == "ps" else num(2))

        def body(rt):
            args, new = dict(context=x, action=a), dict(context=x2, action=a2)
            if pos is not None:
                args["position"], new["position"] = pos, pos2
            guard, fold, fs, ok = sets(rt, L, 1, n, None, pos)
            if not ok:
                return
            gd = lambda p: guard(p, None)
            if which == "ps":
                g = rt.new(PropensityScoreEstimator, base_model=m, n_actions=I(A), len_list=L, calibration_cv=1)
                rt.call(g.fit, **args)
                val = lambda i, p, f: app("sk_proba", fitted(1, n, gd(p), x.at, d, a.at), lam(d, lambda k: x2.at(i, k)), a2.at(i))
            else:
                g = rt.new(ImportanceWeightEstimator, base_model=m, n_actions=I(A), len_list=L, calibration_cv=1, fitting_method="raw")
                rt.call(g.fit, action_dist=pi, **args)
                X = lambda p: (lambda j, k: ite(lt(j, n), ite(lt(k, d), x.at(j, k), iv(eq(a.at(j), k - d))), ite(lt(k, d), x.at(j - n, k), pi.at(j - n, k - d, num(p)))))
                g2 = lambda p: None if gd(p) is None else (lambda j: or_(and_(lt(j, n), gd(p)(j)), and_(not_(lt(j, n)), gd(p)(j - n))))

                def val(i, p, f):
                    q = app("sk_proba", fitted(1, n + n, g2(p), X(p), d + A, lambda j: ite(lt(j, n), ZERO, ONE)), lam(d + A, lambda k: ite(lt(k, d), x2.at(i, k), iv(eq(a2.at(i), k - d)))), ONE)
                    return q / (ONE - q)
            check_rows(rt, "prediction for new rounds", m_, rt.call(g.predict, **new), L, [None], None, pos2, val)
        return body
    return Unit(f"{dict(ps='PropensityScoreEstimator', iw='ImportanceWeightEstimator')[which]}: new rounds, {L} position{'s' * (L > 1)}", build, samples=25)


def u_valid(cls, part):
    iw = cls is ImportanceWeightEstimator

    def build(D):
        L = 2
        n, A, d, x, a, pos = data(D, L)
        bad = D.array("bad", (n, A, num(L)), lo=0, hi=1)
        two = D.array("two", (n, A), simplex=1)
        B, n2 = D.dim("B", 1, 3), D.dim("n2", 1, 8)
        other = D.array("other", (n2, B, num(L)), simplex=1)
        pi = D.array("pi", (n, A, num(L)), simplex=1)
        far = D.array("far", (n,), "int", lo=0, hi=3, gen=lambda rng, env, sh, style: rng.randint(0, 4, size=sh))
        wild = D.array("wild", (n,), "int", lo=-2, gen=lambda rng, env, sh, style: rng.randint(-1, 4, size=sh))
        k1 = D.dim("k1", 1, 8)
        short = D.array("short", (k1,), "int", lo=0, hiT=A)
        k = D.int("k", hi=0, gen=lambda r, v: r.randint(-2, 1))
        N = D.int("N", gen=lambda r, v: r.randint(-1, 4))
        m = SModel(1, "clf", num(2) if iw else A)

        def body(rt):
            mk = lambda **kw: rt.new(cls, **{**dict(base_model=m, n_actions=I(A), len_list=L, calibration_cv=1), **kw})
            if part == "configuration":
                return config(rt, mk)
            base = dict(context=x, action=a, position=pos)
            if iw:
                base["action_dist"] = pi
            full = rt.decide(and_(*[Exists(n, lambda i, p=p: eq(pos.at(i), num(p))) for p in range(L)]))
            for call in ("fit", "fit_predict"):
                run = lambda **kw: rt.outcome(lambda: rt.call(getattr(mk(), call), **{**base, **kw}))
                rt.check(f"{call}: well-formed input", run().returned if full else run().raised(ValueError))
                if not full:
                    continue
                if part == "positions" and rt.decide(Exists(n, lambda i: le(num(L), far.at(i)))):
                    rt.check(f"{call}: position beyond len_list", run(position=far).raised(ValueError))
                if part == "actions":
                    if rt.decide(Exists(n, lambda i: or_(lt(wild.at(i), ZERO), le(A, wild.at(i))))):
                        rt.check(f"{call}: unknown action", run(action=wild).raised(ValueError))
                    if not rt.decide(eq(k1, n)):
                        rt.check(f"{call}: number of actions", run(action=short).raised(ValueError))
                if part == "distributions":
                    rt.check(f"{call}: action_dist has three dimensions", run(action_dist=two).raised(ValueError))
                    if not rt.decide(and_(eq(n2, n), eq(B, A))):
                        rt.check(f"{call}: shape of action_dist", run(action_dist=other).raised(ValueError))
                    if rt.decide(not_(Forall(n, lambda i: Forall(num(L), lambda p: close(Sum(A, lambda b: bad.at(i, b, p))))))):
                        rt.check(f"{call}: action_dist sums to one", run(action_dist=bad).raised(ValueError))
            if full and part == "positions":
                rt.check("at least one fold", rt.outcome(lambda: rt.call(mk().fit_predict, n_folds=k, **base)).raised(ValueError))
                rt.check("type of the number of folds", rt.outcome(lambda: rt.call(mk().fit_predict, n_folds="2", **base)).raised(TypeError))

        def config(rt, mk):
            o = rt.outcome(lambda: mk(n_actions=N))
            rt.check("at least two actions", o.raised(ValueError) if rt.decide(lt(term(N), num(2))) else o.returned)
            rt.check("at least one position", rt.outcome(lambda: mk(len_list=k)).raised(ValueError))
            for kw in (dict(n_actions="3"), dict(n_actions=3.0), dict(len_list=1.0), dict(calibration_cv="2"), dict(calibration_cv=2.0)):
                rt.check("types of the sizes", rt.outcome(lambda: mk(**kw)).raised(TypeError))
            for b in ("model", None):
                rt.check("base model", rt.outcome(lambda: mk(base_model=b)).raised(ValueError))
            if iw:
                for b in ("awesome", None, 1):
                    rt.check("fitting method", rt.outcome(lambda: mk(fitting_method=b)).raised(ValueError))
        return body
    return Unit(f"{cls.__name__}: validation of {part}", build, samples=25)


def units():
    us = [u_ps(L, f, 1) for L in (1, 2) for f in (1, 2)] + [u_ps(1, 3, 1), u_ps(1, 1, 2), u_ps(2, 2, 1, True)]
    us += [u_ps(2, 3, 1, True)]
    us += [u_new(w, L) for w in ("ps", "iw") for L in (1, 2)] + [u_valid(c, p) for c in (PropensityScoreEstimator, ImportanceWeightEstimator) for p in ("configuration", "positions", "actions", "distributions") if p != "distributions" or c is ImportanceWeightEstimator]
    for m in ("sample", "raw"):
        us += [u_iw(m, L, f, 1) for L in (1, 2) for f in (1, 2)]
        us += [u_iw(m, 1, 1, 2), u_iw(m, 1, 1, 1, ac=False), u_iw(m, 2, 2, 1, evaluate=True), ]
    us.append(u_iw("raw", 2, 3, 1, evaluate=True))
    return us[::-1]
