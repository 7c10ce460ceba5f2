"""The Open Bandit Dataset loader: rows stay together, time-series split, bootstrap, on-policy value."""
import os, shutil, tempfile
from .common import *
from .contracts import CONTRACTS
from .p20 import lam
from pv import shim_pd
from obp.dataset import OpenBanditDataset

I = lambda t: Sym(t, "int")
KEYS = ("action", "position", "reward", "pscore", "context")


class Logged:
    """a loaded data set in an arbitrary state"""

    def __init__(self, D):
        self.n, self.d, self.A, self.e = D.dim("n", 1, 8), D.dim("d", 1, 2), D.dim("A", 1, 4), D.dim("e", 1, 2)
        n = self.n
        ints = lambda hi: (lambda rng, env, sh, style: rng.randint(0, hi, size=sh))
        self.data = D.array("data", (n, num(3)))
        self.action = D.array("action", (n,), "int", gen=ints(4))
        self.position = D.array("position", (n,), "int", gen=ints(3))
        self.reward = D.array("reward", (n,), "int", gen=ints(2))
        self.pscore = D.array("pscore", (n,), gen=lambda rng, env, sh, style: rng.rand(*sh))
        self.context = D.array("context", (n, self.d))
        self.action_context = D.array("action_context", (self.A, self.e))
        self.size = D.real("size", lo=0, hi=1, gen=lambda r, e: r.choice([0.0, 0.25, 0.375, 0.5, 0.75, 1.0]))
        self.cut = app("trunc", n * (ONE - term(self.size)), sort="I")
        self.nA = Max(n, self.action.at) + ONE

    def arrays(self):
        return [self.data, self.action, self.position, self.reward, self.pscore, self.context, self.action_context]

    def make(self, rt):
        return rt.raw(OpenBanditDataset, behavior_policy="random", campaign="all", data=self.data, action=self.action, position=self.position,
                      reward=self.reward, pscore=self.pscore, context=self.context, action_context=self.action_context)

    def entry(self, key):
        a = getattr(self, key)
        return (lambda i, j: a.at(i, j)) if key == "context" else a.at

    def check(self, rt, name, fb, rows, at):
        """fb holds `rows` rounds, round k being logged round at(k)"""
        rt.check(f"{name}: keys", sorted(fb) == sorted(KEYS + ("n_rounds", "n_actions", "action_context")))
        rt.check_eq(f"{name}: n_rounds", fb["n_rounds"], I(rows))
        rt.check_eq(f"{name}: n_actions", fb["n_actions"], I(self.nA))
        for k in KEYS:
            f = self.entry(k)
            sh = (rows, self.d) if k == "context" else (rows,)
            rt.check_eq(f"{name}: {k}", fb[k], SArr(sh, lambda i, *r: f(at(i), *r)))
        rt.check_eq(f"{name}: action_context", fb["action_context"], SArr((self.A, self.e), self.action_context.at))


def u_batch():
    def build(D):
        c = Logged(D)

        def body(rt):
            ds = c.make(rt)
            fb = rt.call(ds.obtain_batch_bandit_feedback)
            c.check(rt, "all rounds", fb, c.n, lambda i: i)
            fb = rt.call(ds.obtain_batch_bandit_feedback, test_size=c.size, is_timeseries_split=False)
            c.check(rt, "test size without split is ignored", fb, c.n, lambda i: i)
            rt.check_eq("n_rounds", rt.get(ds, "n_rounds"), I(c.n))
            rt.check_eq("n_actions", rt.get(ds, "n_actions"), I(c.nA))
            rt.check_eq("len_list", rt.get(ds, "len_list"), I(Max(c.n, c.position.at) + ONE))
            rt.check_eq("dim_context", rt.get(ds, "dim_context"), I(c.d))
            for i in rt.each(c.n):
                rt.check("every action is below n_actions", le(c.action.at(i), c.nA - ONE))
            inputs_unchanged(rt, *c.arrays())
        return body
    return Unit("batch feedback", build, samples=25)


def u_split():
    def build(D):
        c = Logged(D)

        def body(rt):
            ds = c.make(rt)
            o = rt.call(ds.obtain_batch_bandit_feedback, test_size=c.size, is_timeseries_split=True)
            rt.check("two parts", isinstance(o, tuple) and len(o) == 2)
            rt.lemma("the cut is within the data", and_(le(ZERO, c.cut), le(c.cut, c.n)))
            c.check(rt, "first part", o[0], c.cut, lambda i: i)
            c.check(rt, "rest", o[1], c.n - c.cut, lambda i: i + c.cut)
            inputs_unchanged(rt, *c.arrays())
        return body
    return Unit("time-series split", build, samples=25)


def u_bootstrap(split, sized):
    def build(D):
        c = Logged(D)
        seed = D.int("seed", lo=0, gen=lambda r, e: r.randint(0, 100))
        k = D.int("k", gen=lambda r, e: r.randint(-1, 9)) if sized else None
        n = c.cut if split else c.n
        if split:
            D.hyp(lt(ZERO, n))

        def body(rt):
            ds = c.make(rt)
            if split:
                rt.lemma("the cut is within the data", and_(le(ZERO, c.cut), le(c.cut, c.n)))
            kw = dict(sample_size=k) if sized else {}
            kw.update(dict(test_size=c.size, is_timeseries_split=True) if split else {})
            o = rt.outcome(lambda: rt.call(ds.sample_bootstrap_bandit_feedback, random_state=seed, **kw))
            if sized and rt.decide(or_(lt(term(k), ZERO), lt(n, term(k)))):
                rt.check("sample size out of range rejected", o.raised(ValueError))
                inputs_unchanged(rt, *c.arrays())
                return
            rt.check("accepted", o.returned)
            size = term(k) if sized else n
            idx = rt.arr(rt.rng(seed).choice(rt.np(np.arange, I(n)), size=I(size), replace=True))
            c.check(rt, "bootstrap sample", o.value, size, lambda i: idx.at(i))
            for j in rt.each(size):
                rt.check("drawn from the data", and_(le(ZERO, idx.at(j)), lt(idx.at(j), n)))
            c.check(rt, "the data set is not changed", rt.call(ds.obtain_batch_bandit_feedback), c.n, lambda i: i)
            inputs_unchanged(rt, *c.arrays())
        return body
    return Unit("bootstrap sample" + (" of the first part" if split else "") + (", given size" if sized else ""), build, samples=25)


def u_validation():
    def build(D):
        c = Logged(D)
        z = D.real("z", gen=lambda r, e: r.choice([-0.5, 0.0, 0.25, 1.0, 1.5]))

        def body(rt):
            ds = c.make(rt)
            call = lambda **k: rt.outcome(lambda: rt.call(ds.obtain_batch_bandit_feedback, **k))
            boot = lambda **k: rt.outcome(lambda: rt.call(ds.sample_bootstrap_bandit_feedback, **k))
            o = call(test_size=z, is_timeseries_split=True)
            if rt.decide(or_(lt(term(z), ZERO), lt(ONE, term(z)))):
                rt.check("test size out of range rejected", o.raised(ValueError))
            else:
                rt.check("test size accepted", o.returned)
            for bad in ("0.3", None):
                rt.check("test size type", call(test_size=bad, is_timeseries_split=True).raised(TypeError))
            for bad in ("True", None, 1, 0.5):
                rt.check("split flag type", call(is_timeseries_split=bad).raised(TypeError))
            for bad in ("5", 1.5):
                rt.check("sample size type", boot(sample_size=bad).raised(TypeError))
            mk = lambda *a, **k: rt.outcome(lambda: rt.new(OpenBanditDataset, *a, **k))
            for kw in (dict(behavior_policy="x", campaign="all"), dict(behavior_policy=None, campaign="all"), dict(behavior_policy="bts", campaign="x"),
                       dict(behavior_policy="random", campaign=1), dict(behavior_policy="bts", campaign="men", data_path=5)):
                rt.check("invalid setting rejected", mk(**kw).raised(ValueError))
            inputs_unchanged(rt, *c.arrays())
        return body
    return Unit("validation", build, samples=25)


# ---- from files

class Files:
    """the two csv files of a campaign; text columns are ordered codes"""

    def __init__(self, D, users=2):
        n, m = self.n, self.m = D.dim("n", 3, 8), D.dim("m", 2, 4)
        ints = lambda lo, hi: (lambda rng, env, sh, style: rng.randint(lo, hi, size=sh))
        self.time = D.array("time", (n,), gen=lambda rng, env, sh, style: rng.permutation(sh[0]) * 1.5)
        self.item = D.array("item", (n,), "int", gen=ints(0, 4))
        self.pos = D.array("pos", (n,), "int", gen=ints(1, 4))
        self.click = D.array("click", (n,), "int", gen=ints(0, 2))
        self.prop = D.array("prop", (n,), gen=lambda rng, env, sh, style: rng.randint(1, 9, size=sh) / 8)
        self.aff = D.array("aff", (n,), gen=lambda rng, env, sh, style: rng.randint(0, 9, size=sh) / 8)
        self.user = [D.array(f"user{j}", (n,), "int", gen=ints(0, 4)) for j in range(users)]
        self.iid = D.array("iid", (m,), "int", gen=lambda rng, env, sh, style: np.arange(sh[0]))
        self.f0 = D.array("f0", (m,), gen=lambda rng, env, sh, style: rng.randint(-9, 9, size=sh) / 8)
        self.f = [D.array(f"f{j + 1}", (m,), "int", gen=ints(0, 4)) for j in range(2)]

    def put(self, rt, campaign):
        """-> data path; in the symbolic run the reader is told what the files contain"""
        rows = [("timestamp", self.time, 0), ("item_id", self.item, 0), ("position", self.pos, 0), ("click", self.click, 0), ("propensity_score", self.prop, 0)]
        rows += [(f"user_feature_{j}", u, 1) for j, u in enumerate(self.user)] + [("user-item_affinity_0", self.aff, 0)]
        items = [("item_id", self.iid, 0), ("item_feature_0", self.f0, 0)] + [(f"item_feature_{j + 1}", f, 1) for j, f in enumerate(self.f)]
        if not rt.concrete:
            shim_pd.TABLES.clear()
            for name, n, cols in ((f"{campaign}.csv", self.n, rows), ("item_context.csv", self.m, items)):
                shim_pd.TABLES[name] = (n, {k: (a.at, a.kind, bool(t)) for k, a, t in cols})
            return "/nowhere"
        import pandas as pd
        root = tempfile.mkdtemp(prefix="obd_")
        p = os.path.join(root, "bts", campaign)
        os.makedirs(p)
        col = lambda a, t: ["u%02d" % v for v in rt.mat(a)] if t else list(rt.mat(a))
        pd.DataFrame({k: col(a, t) for k, a, t in rows}).to_csv(os.path.join(p, f"{campaign}.csv"))
        pd.DataFrame({k: col(a, t) for k, a, t in items}).to_csv(os.path.join(p, "item_context.csv"))
        return root

    def row(self):
        """the k-th row in order of time"""
        L = lam(self.n, self.time.at)
        return lambda k: app("argsort", L, self.n, k, sort="I")


def with_files(rt, c, campaign, f):
    root = c.put(rt, campaign)
    try:
        return f(root)
    finally:
        if rt.concrete:
            shutil.rmtree(root)


def u_load(campaign):
    def build(D):
        c = Files(D)
        n, m = c.n, c.m

        def body(rt):
            ds = with_files(rt, c, campaign, lambda root: rt.new(OpenBanditDataset, behavior_policy="bts", campaign=campaign, data_path=root))
            at = c.row()
            if not rt.concrete:
                nm.DECL["argsort"] = dict(lo=0, hiT=lambda row, n, r: n)
            by_time = lambda f, *r: SArr((n,) + r, f)
            rt.check_eq("actions in order of time", rt.get(ds, "action"), by_time(lambda k: c.item.at(at(k))))
            rt.check_eq("rewards in order of time", rt.get(ds, "reward"), by_time(lambda k: c.click.at(at(k))))
            rt.check_eq("propensities in order of time", rt.get(ds, "pscore"), by_time(lambda k: c.prop.at(at(k))))
            P = lam(n, lambda k: c.pos.at(at(k)))
            rt.check_eq("positions are numbered from zero in order", rt.get(ds, "position"), by_time(lambda k: app("denserank", nm.norm(P) if not rt.concrete else P, k, sort="I")))
            U = [lam(n, lambda k, u=u: u.at(at(k))) for u in c.user]
            if not rt.concrete:
                U = [nm.norm(x) for x in U]
            w = [app("nunique", x, sort="I") - ONE for x in U]
            rk = lambda x, k: app("denserank", x, k, sort="I")
            rt.check_eq("contexts: indicators of the user features, first level dropped", rt.get(ds, "context"),
                        SArr((n, w[0] + w[1]), lambda k, j: ite(lt(j, w[0]), iv(eq(rk(U[0], k), j + ONE)), iv(eq(rk(U[1], k), j - w[0] + ONE)))))
            F = [lam(m, f.at) for f in c.f]
            if not rt.concrete:
                F = [nm.norm(x) for x in F]
            rt.check_eq("item features: codes of the text features, then the numerical one", rt.get(ds, "action_context"),
                        SArr((m, num(3)), lambda a, j: ite(eq(j, ZERO), rk(F[0], a), ite(eq(j, ONE), rk(F[1], a), c.f0.at(a)))))
            rt.check_eq("n_rounds", rt.get(ds, "n_rounds"), I(n))
            rt.check_eq("n_actions", rt.get(ds, "n_actions"), I(Max(n, lambda k: c.item.at(at(k))) + ONE))
            inputs_unchanged(rt, c.time, c.item, c.pos, c.click, c.prop)
        return body
    return Unit(f"loading of the files, campaign {campaign}", build, samples=20)


def u_on_policy():
    def build(D):
        c = Files(D, users=1)
        n = c.n
        size = D.real("size", lo=0, hi=1, gen=lambda r, e: r.choice([0.25, 0.5, 0.75, 1.0]))
        cut = app("trunc", n * (ONE - term(size)), sort="I")
        D.hyp(lt(cut, n))

        def body(rt):
            at = c.row()
            if not rt.concrete:
                nm.DECL["argsort"] = dict(lo=0, hiT=lambda row, n, r: n)
            run = lambda **k: with_files(rt, c, "men", lambda root: rt.call(OpenBanditDataset.calc_on_policy_policy_value_estimate, behavior_policy="bts", campaign="men", data_path=root, **k))
            rt.check_eq("mean reward of the test part", run(test_size=size, is_timeseries_split=True), Sym(mean(n - cut, lambda k: c.click.at(at(k + cut)))))
            rt.check_eq("mean reward of all rounds", run(), Sym(mean(n, lambda k: c.click.at(at(k)))))
        return body
    return Unit("on-policy value", build, samples=15)


def units():
    us = [u_batch(), u_split(), u_validation()]
    us += [u_bootstrap(s, k) for s in (False, True) for k in (False, True)]
    us += [u_load("women"), u_load("all"), u_on_policy()]
    return us
