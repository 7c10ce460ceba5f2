"""Classification data as bandit data: labels, split, behaviour policy, rewards, ground truth."""
from .common import *
from .contracts import CONTRACTS
from .p12 import first_above
from .p13 import sort_facts
from .p20 import fitted, lam
from obp.dataset import MultiClassToBanditReduction

I = lambda t: Sym(t, "int")
VALUES = np.array([[0, 1, 2, 3], [1, 2, 3, 4], [2, 5, 6, 9], [-3, 0, 4, 10]])


def labels(rng, env, sh, style):
    v = VALUES[rng.randint(len(VALUES))][:rng.randint(2, 5)]
    y = rng.choice(v, size=sh)
    y[:len(v)] = v[:sh[0]]
    return rng.permutation(y)


class Data:
    def __init__(self, D, split=True, zero=False):
        self.n, self.d = D.dim("n", 6, 9), D.dim("d", 1, 2)
        self.x = D.array("x", (self.n, self.d))
        self.y = D.array("y", (self.n,), "int", gen=labels)
        self.alpha = D.real("alpha", lo=0, hi=1, hi_strict=True)
        n = self.n
        self.L = L = lam(n, lambda i: self.y.at(i))
        self.K = app("nunique", L, sort="I")
        self.rank = lambda i: app("denserank", nm.norm(L), i, sort="I")
        self.seed = D.int("seed", lo=0, gen=lambda r, e: r.randint(0, 100))
        self.size = D.real("size", lo=0, hi=1, lo_strict=True, hi_strict=True, gen=lambda r, e: r.choice([0.3, 0.5]))
        z, s = term(self.size), term(self.seed)
        self.m = app("split_n", z, n, sort="I")
        self.ev = lambda k: app("split_ev", s, z, n, k, sort="I")
        self.tr = lambda k: app("split_tr", s, z, n, k, sort="I")
        self.model = lambda i: SModel(i, "clf", self.K)

    def new(self, rt, **kw):
        ds = rt.new(MultiClassToBanditReduction, X=self.x, y=self.y, base_classifier_b=self.model(1), alpha_b=self.alpha, **kw)
        rt.call(ds.split_train_eval, eval_size=self.size, random_state=self.seed)
        return ds

    def pred(self, ident, k):
        st = fitted(ident, self.n - self.m, None, lambda i, j: self.x.at(self.tr(i), j), self.d, lambda i: self.rank(self.tr(i)))
        return app("sk_cls", st, lam(self.d, lambda j: self.x.at(self.ev(k), j)), self.K, sort="I")

    def policy(self, ident, al, k, b):
        return (ONE - al) / self.K + iv(eq(b, self.pred(ident, k))) * al


def u_labels():
    def build(D):
        c = Data(D)
        n, K = c.n, c.K

        def body(rt):
            ds = rt.new(MultiClassToBanditReduction, X=c.x, y=c.y, base_classifier_b=c.model(1), alpha_b=c.alpha)
            rt.check_eq("number of actions is the number of classes", rt.get(ds, "n_actions"), I(K))
            rt.check_eq("number of rounds", rt.get(ds, "n_rounds"), I(n))
            rt.check("list length", rt.get(ds, "len_list") == 1)
            y = rt.arr(rt.get(ds, "y"))
            rt.check_eq("contexts", rt.get(ds, "X"), c.x)
            for i in rt.each(n):
                rt.check("labels are class numbers", and_(le(ZERO, y.at(i)), lt(y.at(i), K)))
                rt.check("class numbers name the classes in order", eq(app("uniq", c.L, y.at(i), sort="I"), c.y.at(i)))
            rt.check_eq("labels", rt.get(ds, "y"), SArr((n,), c.rank, "int"))
            inputs_unchanged(rt, c.x, c.y)
        return body
    return Unit("labels are re-indexed", build, samples=25)


def u_split():
    def build(D):
        c = Data(D)

        def body(rt):
            ds = c.new(rt)
            m, t = c.m, c.n - c.m
            rt.check_eq("evaluation rounds", rt.get(ds, "n_rounds_ev"), I(m))
            rt.check_eq("training contexts", rt.get(ds, "X_tr"), SArr((t, c.d), lambda k, j: c.x.at(c.tr(k), j)))
            rt.check_eq("training labels", rt.get(ds, "y_tr"), SArr((t,), lambda k: c.rank(c.tr(k)), "int"))
            rt.check_eq("evaluation contexts", rt.get(ds, "X_ev"), SArr((m, c.d), lambda k, j: c.x.at(c.ev(k), j)))
            rt.check_eq("evaluation labels", rt.get(ds, "y_ev"), SArr((m,), lambda k: c.rank(c.ev(k)), "int"))
            rt.check_eq("full feedback: the reward of an action is one exactly for the true class", rt.get(ds, "y_full_ev"), SArr((m, c.K), lambda k, b: iv(eq(c.rank(c.ev(k)), b))))
            inputs_unchanged(rt, c.x, c.y)
        return body
    return Unit("train / evaluation split", build, samples=25)


def u_feedback(nd):
    def build(D):
        c = Data(D)
        s2 = D.int("seed2", lo=0, gen=lambda r, e: r.randint(0, 100))
        if nd:
            q = D.int("nd", lo=1, gen=lambda r, e: r.randint(1, 4))
            D.hyp(lt(term(q), c.K))

        def body(rt):
            ds = c.new(rt, **(dict(n_deficient_actions=q) if nd else {}))
            fb = rt.call(ds.obtain_batch_bandit_feedback, random_state=s2)
            m, K = c.m, c.K
            al = term(c.alpha)
            if not nd:
                pi = lambda k, b: c.policy(1, al, k, b)
            else:
                g = rt.arr(rt.rng(s2).gumbel(size=(I(m), I(K))))
                hit = deficient(rt, g, K, term(q))
                raw = lambda k, b: ite(hit(k, b), ZERO, c.policy(1, al, k, b))
                pi = lambda k, b: raw(k, b) / Sum(K, lambda e: raw(k, e))
            rt.check("keys", sorted(fb) == ["action", "context", "n_actions", "n_rounds", "pi_b", "position", "pscore", "reward"])
            rt.check_eq("n_actions", fb["n_actions"], I(K))
            rt.check_eq("n_rounds", fb["n_rounds"], I(m))
            rt.check_eq("context", fb["context"], SArr((m, c.d), lambda k, j: c.x.at(c.ev(k), j)))
            rt.check("no positions", fb["position"] is None)
            rt.check_eq("behaviour policy", fb["pi_b"], SArr((m, K, ONE), lambda k, b, p: pi(k, b)))
            u = rt.arr(rt.rng(s2).uniform(size=I(m)))
            act = rt.arr(fb["action"])
            rt.check_eq("actions are drawn from the behaviour policy", fb["action"], SArr((m,), lambda k: first_above(pi, K, k, u.at(k)), "int"))
            rt.check_eq("propensities", fb["pscore"], SArr((m,), lambda k: pi(k, act.at(k))))
            rt.check_eq("reward one exactly for the true class", fb["reward"], SArr((m,), lambda k: iv(eq(act.at(k), c.rank(c.ev(k))))))
            if not nd:
                p = rt.arr(fb["pi_b"])
                for k in rt.each(m):
                    rt.check("a distribution", eq(Sum(K, lambda b: p.at(k, b, ZERO)), ONE))
                    for b in rt.each(K):
                        rt.check("non-negative", le(ZERO, p.at(k, b, ZERO)))
            inputs_unchanged(rt, c.x, c.y)
        return body
    return Unit("bandit feedback" + (", deficient actions" if nd else ""), build, samples=25)


def deficient(rt, g, K, nd):
    """the nd actions with the largest noise"""
    if rt.concrete:
        h = np.zeros((len(rt.mat(g)), int(tm.ev(K, rt.env))), dtype=int)
        for k, row in enumerate(rt.mat(g)):
            h[k, np.argsort(row)[::-1][:int(tm.ev(nd, rt.env))]] = 1
        H = rt.arr(h)
        return lambda k, b: eq(H.at(k, b), ONE)
    return lambda k, b: Exists(nd, lambda j: eq(app("argsort", lam(K, lambda e: g.at(k, e)), K, K - ONE - j, sort="I"), b))


def u_eval(own):
    def build(D):
        c = Data(D)
        ae = D.real("alpha_e", lo=0, hi=1)

        def body(rt):
            ds = c.new(rt)
            kw = {} if own else dict(base_classifier_e=c.model(2))
            out = rt.call(ds.obtain_action_dist_by_eval_policy, alpha_e=ae, **kw)
            ident = 1 if own else 2
            rt.check_eq("evaluation policy", out, SArr((c.m, c.K, ONE), lambda k, b, p: c.policy(ident, term(ae), k, b)))
            o = rt.arr(out)
            for k in rt.each(c.m):
                rt.check("a distribution", eq(Sum(c.K, lambda b: o.at(k, b, ZERO)), ONE))
            dflt = rt.call(ds.obtain_action_dist_by_eval_policy, **kw)
            rt.check_eq("no exploration by default", dflt, SArr((c.m, c.K, ONE), lambda k, b, p: iv(eq(b, c.pred(ident, k)))))
            inputs_unchanged(rt, c.x, c.y)
        return body
    return Unit(f"evaluation policy of the {'behaviour' if own else 'given'} classifier", build, samples=25)


def u_truth():
    def build(D):
        c = Data(D)
        mm = D.dim("mm", 1, 4, val=None)
        pi = D.array("pi", (mm, D.dim("A", 1, 4), D.dim("L", 1, 2)), gen=lambda rng, env, sh, style: rng.rand(*sh))

        def body(rt):
            ds = c.new(rt)
            call = lambda p: rt.outcome(lambda: rt.call(ds.calc_ground_truth_policy_value, action_dist=p))
            if not rt.decide(eq(mm, c.m)):
                rt.check("wrong number of rounds rejected", call(pi).raised(ValueError))
            ae = rt.call(ds.obtain_action_dist_by_eval_policy, alpha_e=1.0)
            o = call(ae)
            rt.check("accepted", o.returned)
            want = mean(c.m, lambda k: iv(eq(c.rank(c.ev(k)), c.pred(1, k))))
            rt.check_eq("ground truth of a deterministic policy is its accuracy", o.value, Sym(want))
            for bad in ("x", None, 0.5):
                rt.check("not an array", call(bad).raised(ValueError))
        return body
    return Unit("ground-truth value: validation", build, samples=25)


def u_value():
    def build(D):
        c = Data(D)
        # the split size is the number of evaluation rounds; any distribution over the classes
        w = D.ufun("w", lambda rng: (lambda k, b: float(np.round(abs(np.sin(3.1 * float(k) + 1.7 * float(b))), 6))))

        def body(rt):
            ds = c.new(rt)
            m, K = c.m, c.K
            pi = rt_array(rt, (m, K, ONE), lambda k, b, p: w(k, b))
            v = rt.call(ds.calc_ground_truth_policy_value, action_dist=pi)
            full = rt.arr(rt.get(ds, "y_full_ev"))
            rt.check_eq("mean probability of the true class", v, Sym(mean(m, lambda k: w(k, c.rank(c.ev(k))))))
            rt.check_eq("mean expected reward", v, Sym(mean(m, lambda k: Sum(K, lambda b: w(k, b) * iv(eq(c.rank(c.ev(k)), b))))))
        return body
    return Unit("ground-truth value", build, samples=25)


def rt_array(rt, shape, f):
    a = SArr(shape, f)
    return rt.mat(a) if rt.concrete else a


def u_ctor():
    def build(D):
        c = Data(D)
        al = D.real("al", gen=lambda r, e: r.choice([-0.1, 0.0, 0.5, 0.999, 1.0, 1.2]))
        nd = D.int("nd", gen=lambda r, e: r.randint(-1, 6))

        def body(rt):
            mk = lambda **k: rt.outcome(lambda: rt.new(MultiClassToBanditReduction, **dict(dict(X=c.x, y=c.y, base_classifier_b=c.model(1)), **k)))
            o = mk(alpha_b=al, n_deficient_actions=nd)
            bad = or_(lt(term(al), ZERO), le(ONE, term(al)), lt(term(nd), ZERO), lt(c.K - ONE, term(nd)))
            if rt.decide(bad):
                rt.check("out of range rejected", o.raised(ValueError))
            else:
                rt.check("in range accepted", o.returned)
            new_mock(2, "reg")
            rt.check("a regressor is rejected", mk(base_classifier_b=SModel(2, "reg")).raised(ValueError))
            rt.check("no model", mk(base_classifier_b=None).raised(ValueError))
            for kw in (dict(alpha_b="0.5"), dict(alpha_b=None), dict(n_deficient_actions=1.0), dict(n_deficient_actions="1")):
                rt.check("wrong type rejected", mk(**kw).raised(TypeError))
            ds = c.new(rt)
            ev = lambda **k: rt.outcome(lambda: rt.call(ds.obtain_action_dist_by_eval_policy, **k))
            for a in (-0.1, 1.1):
                rt.check("alpha_e out of range", ev(alpha_e=a).raised(ValueError))
            rt.check("alpha_e type", ev(alpha_e="1").raised(TypeError))
            rt.check("evaluation model must be a classifier", ev(base_classifier_e=SModel(2, "reg")).raised(AssertionError, ValueError))
        return body
    return Unit("validation", build, samples=25)


def units():
    return [u_labels(), u_split(), u_feedback(False), u_feedback(True), u_eval(True), u_eval(False), u_truth(), u_value(), u_ctor()]
