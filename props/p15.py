"""Bandit simulators: accounting of every round, delayed rewards, replay, ground-truth value, drift, delays."""
import itertools
from .common import *
from .contracts import CONTRACTS
from pv.values import SList
from obp.policy.policy_type import PolicyType
from obp.simulator.simulator import BanditEnvironmentSimulator, BanditPolicySimulator, BanditRound, BanditRounds, calc_ground_truth_policy_value
from obp.simulator.replay import run_bandit_replay
from obp.simulator.coefficient_drifter import CoefficientDrifter
from obp.simulator.delay_sampler import ExponentialDelaySampler
import obp.simulator.coefficient_drifter as CDM

I = lambda t: Sym(t, "int")
FREE, CTX = PolicyType.CONTEXT_FREE, PolicyType.CONTEXTUAL


class Pol:
    """an arbitrary policy: returns the given slates one after the other and records what it is told"""
    _shimclass_ = True

    def __init__(self, ptype, slates, n_actions=None, events=None, clones=None):
        self.policy_type, self.slates, self.n_actions = ptype, slates, n_actions
        self.policy_name = "arbitrary"
        self.events = [] if events is None else events
        self.clones = [] if clones is None else clones
        self.served = 0

    def select_action(self, context=None):
        k = self.served
        self.served += 1
        self.events.append(("select", context))
        return self.slates[k % len(self.slates)]

    def update_params(self, action, reward, context=None):
        self.events.append(("update", action, reward, context))

    def sym_clone(self):
        c = Pol(self.policy_type, self.slates[len(self.slates) // 2:] if not self.clones else self.slates, self.n_actions)
        c.slates, c.served = self.slates, self.served
        c.events = list(self.events)
        self.clones.append(c)
        return c

    def __deepcopy__(self, memo):
        return self.sym_clone()


def slate(rt, a):
    return rt.mat(a) if rt.concrete else a


def check_row(rt, name, got, row):
    """context handed to a contextual policy: one row of two dimensions"""
    rt.check_eq(name, got, row)


def check_events(rt, name, got, want):
    """the policy saw exactly these calls, in this order"""
    rt.check(f"{name}: calls seen by the policy", [e[0] for e in got] == [e[0] for e in want])
    for k, (g, w) in enumerate(zip(got, want)):
        if g[0] != w[0]:
            return
        if w[0] == "select":
            pair = [("context", g[1], w[1])]
        else:
            pair = [("action", g[1], w[1]), ("reward", g[2], w[2]), ("context", g[3], w[3])]
        for what, a, b in pair:
            if b is None:
                rt.check(f"{name}: call {k} ({w[0]}) {what}", a is None)
            else:
                rt.check_eq(f"{name}: call {k} ({w[0]}) {what}", a, b)


def rounds_input(D, n, delays, tag=""):
    A, d, L = D.dim("A", 2, 4), D.dim("d", 1, 3), D.dim("L", 1, 2)
    out = []
    for t in range(n):
        out.append(dict(
            ctx=D.array(f"x{tag}{t}", (d,)), rew=D.array(f"r{tag}{t}", (A,)), exp=D.array(f"q{tag}{t}", (A,)),
            act=D.array(f"a{tag}{t}", (L,), "int", lo=0, hiT=A),
            delay=D.array(f"d{tag}{t}", (A,), "int", lo=0, gen=lambda rng, env, sh, style: rng.randint(0, 3, size=sh)) if delays else None))
    return A, d, L, out


def row(d, x):
    return SArr((ONE, d), lambda z, j: x.at(j))


def expected_update(ptype, d, r):
    a = r["act"].at(ZERO)
    return ("update", I(a), Sym(r["rew"].at(a), "float"), row(d, r["ctx"]) if ptype == CTX else None)


def u_history(ptype, n, delays):
    """every history of n rounds through the public interface"""
    def build(D):
        A, d, L, rs = rounds_input(D, n, delays)
        ac = D.array("ac", (A, ONE))

        def body(rt):
            p = Pol(ptype, [slate(rt, r["act"]) for r in rs])
            s = rt.new(BanditPolicySimulator, policy=p)
            a = [r["act"].at(ZERO) for r in rs]
            due = [r["delay"].at(a[t]) + num(t) for t, r in enumerate(rs)] if delays else None
            pending = []
            for t, r in enumerate(rs):
                rnd = rt.new(BanditRound, n_actions=I(A), context=r["ctx"], action_context=ac, rewards=r["rew"], expected_rewards=r["exp"], round_delays=r["delay"])
                done = len(p.events)
                rt.call(s.step, rnd)
                want = [("select", row(d, r["ctx"]) if ptype == CTX else None)]
                if delays:
                    pending.append(t)
                    now = [j for j in pending if rt.decide(eq(due[j], num(t)))]
                    pending = [j for j in pending if j not in now]
                else:
                    now = [t]
                want += [expected_update(ptype, d, rs[j]) for j in now]
                check_events(rt, f"round {t}", p.events[done:], want)
                rt.check_eq(f"round {t}: rounds played", rt.get(s, "rounds_played"), t + 1)
            tot = ZERO
            for t, r in enumerate(rs):
                tot = tot + r["rew"].at(a[t])
            rt.check_eq("total reward", rt.get(s, "total_reward"), Sym(tot, "float"))
            rt.check_eq("selected actions", rt.get(s, "selected_actions"), SArr((num(n),), lambda t: table(t, [x for x in a]), "int"))
            rt.check_eq("obtained rewards", rt.get(s, "obtained_rewards"), SArr((num(n),), lambda t: table(t, [r["rew"].at(a[j]) for j, r in enumerate(rs)])))
            rt.check_eq("ground-truth rewards", rt.get(s, "ground_truth_rewards"), SArr((num(n), A), lambda t, i: table(t, [r["rew"].at(i) for r in rs])))
            rt.check_eq("contexts", rt.get(s, "contexts"), SArr((num(n), d), lambda t, i: table(t, [r["ctx"].at(i) for r in rs])))
            # the end of the simulation: everything still pending is delivered exactly once
            done = len(p.events)
            rt.call(s.clear_delayed_queue)
            got = p.events[done:]
            rt.check("pending rewards are delivered at the end", len(got) == len(pending) and all(e[0] == "update" for e in got))
            if len(got) == len(pending) and pending:
                alts = []
                for perm in itertools.permutations(pending):
                    alts.append(and_(*[same_update(rt, g, expected_update(ptype, d, rs[j])) for g, j in zip(got, perm)]))
                rt.check("each pending reward is delivered exactly once", or_(*alts))
            done = len(p.events)
            rt.call(s.clear_delayed_queue)
            rt.check("nothing is delivered twice", len(p.events) == done)
        return body
    return Unit(f"BanditPolicySimulator: {ptype.name.lower()} policy, any history of {n} rounds{' with delayed rewards' if delays else ''}", build, samples=40 if delays else 15, max_paths=3000)


def table(t, xs):
    r = xs[-1]
    for k in range(len(xs) - 2, -1, -1):
        r = ite(eq(t, num(k)), xs[k], r)
    return r


def same_update(rt, g, w):
    ps = [eq(tm.as_num(term(g[1])), term(w[1])), eq(tm.as_num(term(g[2])), term(w[2]))]
    if w[3] is not None:
        x = rt.arr(g[3])
        if x.ndim != 2:
            return FALSE
        ps += [eq(x.axes[0].length(), ONE), eq(x.axes[1].length(), w[3].axes[1].n), Forall(w[3].axes[1].n, lambda j: eq(x.at(ZERO, j), w[3].at(ZERO, j)))]
    return and_(*ps)


class Past(SList):
    """a list whose first R entries are arbitrary and to which the code may append"""

    def __init__(self, n, fn):
        super().__init__(n, fn)
        self.more = []

    def append(self, x):
        self.more.append(x)

    def __getitem__(self, k):
        t = term(k)
        if decide(and_(le(ZERO, t), lt(t, self.n))):
            return self.fn(t)
        for j, x in enumerate(self.more):
            if decide(eq(t, self.n + num(j))):
                return x
        raise SymRaise(IndexError("list index out of range"))


STATE_LISTS = ("_selected_actions", "_obtained_rewards", "_ground_truth_rewards", "_contexts")


def u_any_state(ptype):
    """one round from an arbitrary state: R rounds played, two rounds due now, one due later"""
    def build(D):
        A, d, L, rs = rounds_input(D, 1, True)
        R = D.dim("R", 2, 5)
        px, pa, pr = D.array("px", (R, d)), D.array("pa", (R,), "int", lo=0, hiT=A), D.array("pr", (R,))
        j = [D.int(f"j{k}", lo=0, hiT=R, gen=lambda r, e, k=k: r.randint(0, int(e["R"]) - 1)) for k in range(3)]
        K = D.int("K", lo=0, gen=lambda r, e: int(e["R"]) + r.randint(1, 3))
        tot = D.real("tot")
        D.hyp(lt(R, term(K)))
        r = rs[0]

        def body(rt):
            p = Pol(ptype, [slate(rt, r["act"])])
            s = rt.new(BanditPolicySimulator, policy=p)
            if not hasattr(s, "reward_round_lookup") or any(type(getattr(s, a, None)).__name__ not in ("list", "TrackList") for a in STATE_LISTS):
                rt.skip("the simulator keeps its history in another form")
            if rt.concrete:
                q = type(s.reward_round_lookup)(list)
                q[int(rt.mat(R))], q[rt.mat(K)] = [rt.mat(j[0]), rt.mat(j[1])], [rt.mat(j[2])]
                rt.set(s, _selected_actions=[x for x in rt.mat(pa)], _obtained_rewards=[x for x in rt.mat(pr)], _contexts=[x for x in rt.mat(px)],
                       _ground_truth_rewards=[np.zeros(int(rt.mat(A)))] * int(rt.mat(R)), rounds_played=int(rt.mat(R)), total_reward=rt.mat(tot))
            else:
                from pv.interp import SymKey
                q = type(s.reward_round_lookup)(list)
                q[SymKey(R, "int", None)], q[SymKey(term(K), "int", None)] = [j[0], j[1]], [j[2]]
                rt.set(s, _selected_actions=Past(R, lambda k: I(pa.at(k))), _obtained_rewards=Past(R, lambda k: Sym(pr.at(k), "float")),
                       _contexts=Past(R, lambda k: SArr((d,), lambda i: px.at(k, i))), _ground_truth_rewards=Past(R, lambda k: r["rew"]), rounds_played=I(R), total_reward=tot)
            s.reward_round_lookup = q
            old = lambda k: ("update", I(pa.at(k)), Sym(pr.at(k), "float"), SArr((ONE, d), lambda z, i: px.at(k, i)) if ptype == CTX else None)
            rnd = rt.new(BanditRound, n_actions=I(A), context=r["ctx"], action_context=None, rewards=r["rew"], expected_rewards=r["exp"], round_delays=r["delay"])
            rt.call(s.step, rnd)
            a = r["act"].at(ZERO)
            want = [("select", row(d, r["ctx"]) if ptype == CTX else None), old(term(j[0])), old(term(j[1]))]
            now = rt.decide(eq(r["delay"].at(a), ZERO))
            if now:
                want.append(expected_update(ptype, d, r))
            check_events(rt, "rewards due now", p.events, want)
            rt.check_eq("rounds played", rt.get(s, "rounds_played"), I(R + ONE))
            rt.check_eq("total reward", rt.get(s, "total_reward"), Sym(term(tot) + r["rew"].at(a), "float"))
            done = len(p.events)
            rt.call(s.clear_delayed_queue)
            got = p.events[done:]
            left = [old(term(j[2]))] + ([] if now else [expected_update(ptype, d, r)])
            rt.check("later rewards stay pending", len(got) == len(left))
            if len(got) == len(left):
                rt.check("each is delivered exactly once", or_(*[and_(*[same_update(rt, g, w) for g, w in zip(got, perm)]) for perm in itertools.permutations(left)]))
        return body
    return Unit(f"BanditPolicySimulator: {ptype.name.lower()} policy, one round from any state with pending rewards", build, samples=40, max_paths=3000)


def u_policy_type():
    def build(D):
        A, d, L, rs = rounds_input(D, 1, False)
        r = rs[0]

        def body(rt):
            p = Pol(PolicyType.OFFLINE, [slate(rt, r["act"])])
            s = rt.new(BanditPolicySimulator, policy=p)
            rnd = rt.new(BanditRound, n_actions=I(A), context=r["ctx"], action_context=None, rewards=r["rew"], expected_rewards=r["exp"], round_delays=None)
            rt.check("offline policies are refused", rt.outcome(lambda: rt.call(s.step, rnd)).raised(RuntimeError))
        return body
    return Unit("BanditPolicySimulator: unsupported policy type", build, samples=3)


# ------------------------------------------------------------------ environment
class RewardFn:
    """an arbitrary mean-reward function of the context"""
    _shimclass_ = True

    def __init__(self, rt, f, A):
        self.rt, self.f, self.A, self.calls = rt, f, A, []

    def __call__(self, context, action_context, random_state=None, coef_function=None, **kw):
        self.calls.append((context, action_context, random_state))
        c = self.rt.arr(context)
        n = c.axes[0].n
        out = SArr((n, self.A), lambda i, a: self.f(c.at(i, ZERO), a))
        return self.rt.mat(out) if self.rt.concrete else out


class DelayFn:
    _shimclass_ = True

    def __init__(self, rt, f):
        self.rt, self.f = rt, f

    def __call__(self, n_rounds, n_actions, expected_rewards, **kw):
        q = self.rt.arr(expected_rewards)
        out = SArr((term(n_rounds) if isinstance(n_rounds, Sym) else num(int(n_rounds)), term(n_actions) if isinstance(n_actions, Sym) else num(int(n_actions))), lambda i, a: self.f(q.at(i, a), a))
        return self.rt.mat(out) if self.rt.concrete else out


def env_inputs(D):
    A, d, n = D.dim("A", 2, 4), D.dim("d", 1, 3), D.dim("n", 1, 4)
    seed = D.int("seed", lo=0, gen=lambda r, e: r.randint(0, 1000))
    f = D.ufun("qfun", lambda rng: (lambda x, a: 1 / (1 + np.exp(-float(x) - int(a)))), lo=0, hi=1)
    g = D.ufun("dfun", lambda rng: (lambda q, a: int(10 * float(q)) + int(a)), lo=0)
    return A, d, n, seed, f, g


def u_env(given, delays, single):
    def build(D):
        A, d, n, seed, f, g = env_inputs(D)
        m = ONE if single else n
        ac = D.array("ac", (A, d)) if given else None

        def body(rt):
            kw = dict(n_actions=I(A), dim_context=I(d), random_state=seed)
            rf = RewardFn(rt, f, A)
            if given:
                kw.update(reward_function=rf, action_context=ac)
            if delays:
                kw.update(delay_function=DelayFn(rt, g))
            env = rt.new(BanditEnvironmentSimulator, **kw)
            r = rt.rng(seed)
            base = None if given else rt.arr(r.uniform(size=I(A)))
            for rep in range(2):
                x = rt.arr(r.normal(size=(I(m), I(d))))
                q = SArr((m, A), lambda i, a: f(x.at(i, ZERO), a)) if given else SArr((m, A), lambda i, a: base.at(a))
                y = rt.arr(r.binomial(n=1, p=q))
                dl = lambda i, a: g(q.at(i, a), a)
                acw = ac if given else SArr((A, A), lambda i, k: iv(eq(i, k)), "int")
                if single:
                    o = rt.call(env.next_bandit_round)
                    rt.check_eq("context", rt.get(o, "context"), SArr((d,), lambda k: x.at(ZERO, k)))
                    rt.check_eq("expected rewards", rt.get(o, "expected_rewards"), SArr((A,), lambda a: q.at(ZERO, a)))
                    rt.check_eq("rewards", rt.get(o, "rewards"), SArr((A,), lambda a: y.at(ZERO, a), "int"))
                    if delays:
                        rt.check_eq("delays", rt.get(o, "round_delays"), SArr((A,), lambda a: dl(ZERO, a)))
                else:
                    o = rt.call(env.next_bandit_round_batch, n_rounds=I(n))
                    rt.check_eq("rounds", rt.get(o, "n_rounds"), I(n))
                    rt.check_eq("contexts", rt.get(o, "context"), x)
                    rt.check_eq("expected rewards", rt.get(o, "expected_rewards"), q)
                    rt.check_eq("rewards", rt.get(o, "rewards"), SArr((m, A), lambda i, a: y.at(i, a), "int"))
                    if delays:
                        rt.check_eq("delays", rt.get(o, "round_delays"), SArr((m, A), dl))
                if not delays:
                    rt.check("no delays", rt.get(o, "round_delays") is None)
                rt.check_eq("actions", rt.get(o, "n_actions"), I(A))
                rt.check_eq("action contexts", rt.get(o, "action_context"), acw)
        return body
    return Unit(f"BanditEnvironmentSimulator: {'one round' if single else 'batch of rounds'}, {'given reward function' if given else 'context-free rewards'}{', delays' if delays else ''}", build, samples=12)


def u_batch_iter():
    """iterating a batch gives its rounds in order, each with its own row"""
    def build(D):
        A, d = D.dim("A", 2, 3), D.dim("d", 1, 2)
        n = 3
        x, y, q = D.array("x", (num(n), d)), D.array("y", (num(n), A)), D.array("q", (num(n), A))
        dl, ac = D.array("dl", (num(n), A), "int", lo=0), D.array("ac", (A, d))

        def body(rt):
            for withd in (False, True):
                b = rt.new(BanditRounds, n_rounds=n, n_actions=I(A), context=x, action_context=ac, rewards=y, expected_rewards=q, round_delays=dl if withd else None)
                for again in range(2):
                    rs = list(b) if rt.concrete else list(rt.interp.prepare_iter(b))
                    rt.check("one item per round", len(rs) == n)
                    for t, o in enumerate(rs):
                        rt.check_eq(f"context {t}", rt.get(o, "context"), SArr((d,), lambda k, t=t: x.at(num(t), k)))
                        rt.check_eq(f"rewards {t}", rt.get(o, "rewards"), SArr((A,), lambda k, t=t: y.at(num(t), k)))
                        rt.check_eq(f"expected rewards {t}", rt.get(o, "expected_rewards"), SArr((A,), lambda k, t=t: q.at(num(t), k)))
                        rt.check_eq(f"action contexts {t}", rt.get(o, "action_context"), ac)
                        if withd:
                            rt.check_eq(f"delays {t}", rt.get(o, "round_delays"), SArr((A,), lambda k, t=t: dl.at(num(t), k), "int"))
                        else:
                            rt.check(f"delays {t}", rt.get(o, "round_delays") is None)
        return body
    return Unit("BanditRounds: iteration", build, samples=5)


def u_steps(batch):
    """steps() plays every round once, in order"""
    def build(D):
        A, d = D.dim("A", 2, 3), D.dim("d", 1, 2)
        n = 2
        seed = D.int("seed", lo=0, gen=lambda r, e: r.randint(0, 1000))
        L = D.dim("L", 1, 2)
        act = [D.array(f"a{t}", (L,), "int", lo=0, hiT=A) for t in range(n)]

        def body(rt):
            for ptype in (FREE, CTX):
                mk = lambda: rt.new(BanditEnvironmentSimulator, n_actions=I(A), dim_context=I(d), random_state=seed)
                p1, p2 = (Pol(ptype, [slate(rt, a) for a in act]) for _ in range(2))
                e1, e2 = mk(), mk()
                s1 = rt.new(BanditPolicySimulator, policy=p1, environment=e1)
                s2 = rt.new(BanditPolicySimulator, policy=p2, environment=e2)
                if batch:
                    b = rt.call(e1.next_bandit_round_batch, n_rounds=n)
                    rt.call(s1.steps, batch_bandit_rounds=b)
                    for o in (list(b) if rt.concrete else list(rt.interp.prepare_iter(b))):
                        rt.call(s2.step, o)
                else:
                    rt.call(s1.steps, n_rounds=n)
                    for _ in range(n):
                        rt.call(s2.step)
                rt.check_eq("rounds played", rt.get(s1, "rounds_played"), n)
                check_events(rt, "same as single steps", p1.events, p2.events)
                for k in ("total_reward", "selected_actions", "obtained_rewards", "ground_truth_rewards", "contexts"):
                    rt.check_eq(k, rt.get(s1, k), rt.get(s2, k))
                sel = [e for e in p1.events if e[0] == "select"]
                rt.check("one selection per round", len(sel) == n)
        return body
    return Unit(f"BanditPolicySimulator.steps: {'batch' if batch else 'environment'}", build, samples=8)


# ------------------------------------------------------------------ value of an online policy
def fb_inputs(D, n, positions):
    A, d, L = D.dim("A", 2, 4), D.dim("d", 1, 3), D.dim("L", 1, 2)
    x, act, rew = D.array("x", (n, d)), D.array("act", (n,), "int", lo=0, hiT=A), D.array("rew", (n,))
    q = D.array("q", (n, A))
    pos = D.array("pos", (n,), "int", lo=0, hiT=L) if positions else None
    return A, d, L, x, act, rew, q, pos


class Memoryless:
    """a policy whose slate is an arbitrary function of the context"""
    _shimclass_ = True

    def __init__(self, rt, ptype, f, d, L, A):
        self.rt, self.policy_type, self.f, self.d, self.L, self.n_actions = rt, ptype, f, d, L, I(A) if not rt.concrete else int(rt.mat(A))

    def select_action(self, context=None):
        if context is None:
            z = lambda: (ZERO, ZERO)
        else:
            c = self.rt.arr(context)
            z = lambda: (c.at(ZERO, ZERO), c.at(ZERO, self.d - ONE))
        out = SArr((self.L,), lambda l: self.f(*z(), l), "int")
        return self.rt.mat(out) if self.rt.concrete else out

    def update_params(self, action, reward, context=None):
        pass

    def sym_clone(self):
        return self

    def __deepcopy__(self, memo):
        return self


class Sampler:
    """an arbitrary reward sampler; records what it was asked"""
    _shimclass_ = True

    def __init__(self, rt, f, log=True):
        self.rt, self.f, self.calls = rt, f, [] if log else None

    def __call__(self, context, action):
        c, a = self.rt.arr(context), self.rt.arr(action)
        if self.calls is not None:
            self.calls.append((context, action))
        out = self.f(c.at(ZERO, ZERO), tm.as_num(a.at(ZERO)))
        return self.rt.mat(Sym(out, "float")) if self.rt.concrete else Sym(out, "float")


def selector(D, A):
    return D.ufun("sel", lambda rng: (lambda x, y, l, s=rng.randint(0, 5): int(abs(float(x) * 7 + float(y) * 3) + int(l) + s) % 2), sort="I", lo=0, hiT=A)


def u_gt_memoryless(ptype, positions):
    def build(D):
        n, S = D.dim("n", 1, 4), D.dim("S", 1, 3)
        A, d, L, x, act, rew, q, pos = fb_inputs(D, n, positions)
        f = selector(D, A)
        g = D.ufun("rsamp", lambda rng: (lambda x, a: float(int(a) % 2)))

        def body(rt):
            p = Memoryless(rt, ptype, f, d, L, A)
            fb = dict(n_rounds=I(n), n_actions=I(A), context=x, action=act, reward=rew, expected_reward=q, position=pos)
            v = rt.call(calc_ground_truth_policy_value, bandit_feedback=fb, reward_sampler=Sampler(rt, g, False), policy=p, n_sim=I(S))
            z = (lambda i: (x.at(i, ZERO), x.at(i, d - ONE))) if ptype == CTX else (lambda i: (ZERO, ZERO))
            ps = (lambda i: pos.at(i)) if positions else (lambda i: ZERO)
            rt.check_eq("value", v, Sym(Sum(n, lambda i: q.at(i, f(*z(i), ps(i)))) / n, "float"))
        return body
    return Unit(f"calc_ground_truth_policy_value: memoryless {ptype.name.lower()} policy, any number of rounds{'' if positions else ', no positions'}", build, samples=15)


def u_gt_history(ptype):
    """two simulations of two rounds: fresh copies of the policy, documented calls"""
    def build(D):
        n = num(2)
        A, d, L, x, act, rew, q, pos = fb_inputs(D, n, True)
        sl = [D.array(f"s{t}", (L,), "int", lo=0, hiT=A) for t in range(2)]
        g = D.ufun("rsamp", lambda rng: (lambda x, a: float(x) + int(a)))

        def body(rt):
            p = Pol(ptype, [slate(rt, s) for s in sl])
            fb = dict(n_rounds=2, n_actions=I(A), context=x, action=act, reward=rew, expected_reward=q, position=pos)
            sm = Sampler(rt, g)
            v = rt.call(calc_ground_truth_policy_value, bandit_feedback=fb, reward_sampler=sm, policy=p, n_sim=2)
            a = [sl[t].at(pos.at(num(t))) for t in range(2)]
            rt.check_eq("value", v, Sym((q.at(ZERO, a[0]) + q.at(ONE, a[1])) / num(2), "float"))
            rt.check("the given policy is not used itself", p.events == [])
            rt.check("a fresh copy per simulation", len(p.clones) == 2)
            want = []
            for t in range(2):
                c = SArr((ONE, d), lambda z, j, t=t: x.at(num(t), j))
                want += [("select", c if ptype == CTX else None), ("update", I(a[t]), Sym(g(x.at(num(t), ZERO), a[t]), "float"), c if ptype == CTX else None)]
            for k, c in enumerate(p.clones):
                check_events(rt, f"simulation {k}", c.events, want)
            rt.check("one reward per round", len(sm.calls) == 4)
            for k, (c, b) in enumerate(sm.calls):
                rt.check_eq(f"context of reward {k}", c, SArr((ONE, d), lambda z, j, k=k: x.at(num(k % 2), j)))
                rt.check_eq(f"action of reward {k}", b, SArr((ONE,), lambda z, k=k: a[k % 2], "int"))
        return body
    return Unit(f"calc_ground_truth_policy_value: {ptype.name.lower()} policy with memory", build, samples=15)


def u_keys():
    def build(D):
        n = num(2)
        A, d, L, x, act, rew, q, pos = fb_inputs(D, n, True)
        ps = D.array("ps", (n,), lo=0, lo_strict=True, hi=1)
        f = selector(D, A)
        g = D.ufun("rsamp", lambda rng: (lambda x, a: float(int(a) % 2)))

        def body(rt):
            p = Memoryless(rt, FREE, f, d, L, A)
            fb = dict(n_rounds=2, n_actions=I(A), context=x, action=act, reward=rew, expected_reward=q, position=pos, pscore=ps)
            for k in ("action", "position", "reward", "expected_reward", "context"):
                b = {j: w for j, w in fb.items() if j != k}
                rt.check(f"value: {k} is required", rt.outcome(lambda: rt.call(calc_ground_truth_policy_value, bandit_feedback=b, reward_sampler=Sampler(rt, g), policy=p, n_sim=1)).raised(RuntimeError))
            for k in ("action", "position", "reward", "pscore", "context"):
                b = {j: w for j, w in fb.items() if j != k}
                rt.check(f"replay: {k} is required", rt.outcome(lambda: rt.call(run_bandit_replay, bandit_feedback=b, policy=p)).raised(RuntimeError))
            for k, bad in (("action", rew), ("reward", q), ("context", rew), ("position", rew)):
                b = dict(fb)
                b[k] = bad
                rt.check(f"value: malformed {k}", rt.outcome(lambda: rt.call(calc_ground_truth_policy_value, bandit_feedback=b, reward_sampler=Sampler(rt, g), policy=p, n_sim=1)).raised(ValueError))
                rt.check(f"replay: malformed {k}", rt.outcome(lambda: rt.call(run_bandit_replay, bandit_feedback=b, policy=p)).raised(ValueError))
        return body
    return Unit("ground-truth value and replay: required and malformed inputs", build, samples=4)


def u_replay_memoryless(ptype, positions):
    def build(D):
        n = D.dim("n", 1, 4)
        A, d, L, x, act, rew, q, pos = fb_inputs(D, n, positions)
        ps = D.array("ps", (n,), lo=0, lo_strict=True, hi=1)
        f = selector(D, A)

        def body(rt):
            p = Memoryless(rt, ptype, f, d, L, A)
            fb = dict(n_rounds=I(n), n_actions=I(A), context=x, action=act, reward=rew, position=pos, pscore=ps)
            r = rt.call(run_bandit_replay, bandit_feedback=fb, policy=p)
            z = (lambda i: (x.at(i, ZERO), x.at(i, d - ONE))) if ptype == CTX else (lambda i: (ZERO, ZERO))
            rt.check_eq("the policy's own choices as a distribution", r, SArr((n, A, L), lambda i, a, l: iv(eq(f(*z(i), l), a))))
        return body
    return Unit(f"run_bandit_replay: memoryless {ptype.name.lower()} policy, any number of rounds{'' if positions else ', no positions'}", build, samples=15)


def u_replay_history(ptype, n=3):
    def build(D):
        A, d, L, x, act, rew, q, pos = fb_inputs(D, num(n), True)
        ps = D.array("ps", (num(n),), lo=0, lo_strict=True, hi=1)
        sl = [D.array(f"s{t}", (L,), "int", lo=0, hiT=A) for t in range(n)]

        def body(rt):
            p = Pol(ptype, [slate(rt, s) for s in sl], rt.mat(A) if rt.concrete else I(A))
            fb = dict(n_rounds=n, n_actions=I(A), context=x, action=act, reward=rew, position=pos, pscore=ps)
            r = rt.call(run_bandit_replay, bandit_feedback=fb, policy=p)
            want = []
            for t in range(n):
                k = num(t)
                c = SArr((ONE, d), lambda z, j, k=k: x.at(k, j)) if ptype == CTX else None
                want.append(("select", c))
                if rt.decide(eq(act.at(k), sl[t].at(pos.at(k)))):
                    want.append(("update", I(act.at(k)), Sym(rew.at(k), "float"), c))
            check_events(rt, "only matching rounds are learned from", p.events, want)
            rt.check_eq("distribution", r, SArr((num(n), A, L), lambda i, a, l: table(i, [iv(eq(s.at(l), a)) for s in sl])))
        return body
    return Unit(f"run_bandit_replay: {ptype.name.lower()} policy with memory, {n} rounds", build, samples=15)


# ------------------------------------------------------------------ delays
def u_delay(weighted):
    def build(D):
        n, A = D.dim("n", 1, 4), D.dim("A", 1, 4)
        hi, lo = D.real("hi", lo=1, hi=200), D.real("lo", lo=0, lo_strict=True, hi=1)
        seed = D.int("seed", lo=0, gen=lambda r, e: r.randint(0, 1000))
        q = D.array("q", (n, A), lo=0, hi=1)

        def body(rt):
            s = rt.new(ExponentialDelaySampler, max_scale=hi, min_scale=lo, random_state=seed)
            r = rt.rng(seed)
            for rep in range(2):
                if weighted:
                    sc = SArr((n, A), lambda i, a: term(lo) + (ONE - q.at(i, a)) * (term(hi) - term(lo)))
                    want = rt.arr(rt.np(np.ceil, r.exponential(scale=sc, size=(I(n), I(A)))))
                    got = rt.call(s.exponential_delay_function_expected_reward_weighted, expected_rewards=q, n_rounds=I(n))
                    rt.check_eq("delays", got, want)
                else:
                    w = rt.arr(rt.np(np.ceil, r.exponential(scale=hi, size=I(n))))
                    got = rt.call(s.exponential_delay_function, n_rounds=I(n), n_actions=I(A))
                    rt.check_eq("one delay per round", got, SArr((n, A), lambda i, a: w.at(i)))
            rt.check("seed is required", rt.outcome(lambda: rt.new(ExponentialDelaySampler)).raised(ValueError))
        return body
    return Unit(f"ExponentialDelaySampler: {'weighted by expected reward' if weighted else 'common delay'}", build, samples=10)


def u_env_ctor():
    def build(D):
        A, d = D.int("A", gen=lambda r, e: r.randint(0, 4)), D.int("d", gen=lambda r, e: r.randint(-1, 2))
        n = D.int("n", gen=lambda r, e: r.randint(-1, 2))
        ac = D.array("ac", (num(3), num(2)))

        def body(rt):
            o = rt.outcome(lambda: rt.new(BanditEnvironmentSimulator, n_actions=A, dim_context=d))
            bad = rt.decide(or_(lt(term(A), num(2)), lt(term(d), ONE)))
            rt.check("range of the sizes", o.raised(ValueError) if bad else o.returned)
            for kw in (dict(n_actions="2"), dict(n_actions=2.0), dict(n_actions=2, dim_context=1.5)):
                rt.check("type of the sizes", rt.outcome(lambda: rt.new(BanditEnvironmentSimulator, **kw)).raised(TypeError))
            rt.check("seed is required", rt.outcome(lambda: rt.new(BanditEnvironmentSimulator, n_actions=2, random_state=None)).raised(ValueError))
            if not bad:
                o = rt.outcome(lambda: rt.new(BanditEnvironmentSimulator, n_actions=A, dim_context=d, action_context=ac))
                rt.check("one context per action", o.returned if rt.decide(eq(term(A), num(3))) else o.raised(ValueError))
            e = rt.new(BanditEnvironmentSimulator, n_actions=2)
            o = rt.outcome(lambda: rt.call(e.next_bandit_round_batch, n_rounds=n))
            rt.check("range of n_rounds", o.raised(ValueError) if rt.decide(lt(term(n), ONE)) else o.returned)
            rt.check("context dimension", rt.outcome(lambda: rt.call(e.sample_reward, SArr((num(3),), lambda i: ZERO))).raised(ValueError))
        return body
    return Unit("BanditEnvironmentSimulator: validation", build, samples=20)


# ------------------------------------------------------------------ drifting coefficients
def draws(rt, r, d, e, k):
    """k successive sets of coefficients"""
    out = []
    for _ in range(k):
        out.append((rt.arr(r.uniform(-1, 1, size=I(d))), rt.arr(r.uniform(-1, 1, size=I(e))), rt.arr(r.uniform(-1, 1, size=(I(d), I(e))))))
    return out


def u_drift(seasonal, late):
    """two successive calls covering up to two drift intervals; the split must not matter"""
    def build(D):
        d, e = D.dim("d", 1, 2), D.dim("e", 1, 2)
        N = D.int("N", lo=1, gen=lambda r, v: r.randint(1, 5))
        P = D.int("P", lo=0, gen=lambda r, v: r.randint(0, 6))
        n1 = D.int("n1", lo=1, gen=lambda r, v: r.randint(1, max(2, 2 * int(v["N"]))))
        n2 = D.int("n2", lo=1, gen=lambda r, v: r.randint(1, max(2, 2 * int(v["N"]) - int(v["n1"]) + 1)))
        D.hyp(le(term(n1) + term(n2), num(2) * term(N)))
        bw = D.real("bw", lo=0, hi=1)
        seed = D.int("seed", lo=0, gen=lambda r, v: r.randint(0, 1000))

        def body(rt):
            kw = {} if late else dict(effective_dim_context=I(d), effective_dim_action_context=I(e))
            g = rt.new(CoefficientDrifter, drift_interval=N, transition_period=P, seasonal=seasonal, base_coefficient_weight=bw, random_state=seed, **kw)
            r = rt.rng(seed)
            C = draws(rt, r, d, e, 3 if not seasonal else 2)
            if seasonal:
                C = C + [C[0]]
            N_, P_, b = term(N), term(P), term(bw)

            def coef(j, t, *i):
                k0 = lt(t, N_)
                o = ite(k0, t, t - N_)
                w = max2(ZERO, o - N_ + P_ + ONE) / (P_ + ONE)
                a = ite(k0, C[0][j].at(*i), C[1][j].at(*i))
                z = ite(k0, C[1][j].at(*i), C[2][j].at(*i))
                return b * C[0][j].at(*i) + (ONE - b) * ((ONE - w) * a + w * z)
            dims = ((d,), (e,), (d, e))
            off = ZERO
            for n in (n1, n2):
                kw = dict(effective_dim_context=I(d), effective_dim_action_context=I(e)) if late else {}
                got = rt.call(g.get_coefficients, n_rounds=n, **kw)
                for j, nmx in enumerate(("context", "action", "context-action")):
                    rt.check_eq(f"{nmx} coefficients", got[j], SArr((term(n),) + dims[j], lambda t, *i, j=j, off=off: coef(j, t + off, *i)))
                off = off + term(n)
            o = rt.outcome(lambda: rt.call(g.get_coefficients, n_rounds=1, effective_dim_context=I(d + ONE), effective_dim_action_context=I(e)))
            rt.check("the dimensions cannot change", o.raised(RuntimeError))
        return body
    return Unit(f"CoefficientDrifter: two calls within two intervals{', seasonal' if seasonal else ''}{', dimensions given later' if late else ''}", build, samples=60, max_paths=3000)


def u_drift_sampled():
    def build(D):
        d, e = D.dim("d", 1, 2), D.dim("e", 1, 2)
        N = D.int("N", lo=1, gen=lambda r, v: r.randint(2, 5))
        P = D.int("P", lo=0, gen=lambda r, v: r.randint(0, 4))
        n = D.int("n", lo=1, gen=lambda r, v: r.randint(1, int(v["N"])))
        D.hyp(lt(term(n), term(N)))
        D.hyp(le(term(P), term(N)))
        seed = D.int("seed", lo=0, gen=lambda r, v: r.randint(0, 1000))

        def body(rt):
            g = rt.new(CoefficientDrifter, drift_interval=N, transition_period=P, transition_type="weighted_sampled", random_state=seed, effective_dim_context=I(d), effective_dim_action_context=I(e))
            r = rt.rng(seed)
            C = draws(rt, r, d, e, 2)
            N_, P_, n_ = term(N), term(P), term(n)
            w = rt.arr(r.binomial(n=1, p=SArr((n_,), lambda t: max2(ZERO, t - N_ + P_ + ONE) / (P_ + ONE))))
            got = rt.call(g.get_coefficients, n_rounds=n)
            dims = ((d,), (e,), (d, e))
            for j, nmx in enumerate(("context", "action", "context-action")):
                rt.check_eq(f"{nmx} coefficients", got[j], SArr((n_,) + dims[j], lambda t, *i, j=j: ite(eq(w.at(t), ONE), C[1][j].at(*i), C[0][j].at(*i)) if rt.concrete else (ONE - w.at(t)) * C[0][j].at(*i) + w.at(t) * C[1][j].at(*i)))
            rt.check("seed is required", rt.outcome(lambda: rt.new(CoefficientDrifter, drift_interval=3, random_state=None)).raised(ValueError))
        return body
    return Unit("CoefficientDrifter: sampled transition within one interval", build, samples=30)


def units():
    us = [u_policy_type(), u_batch_iter(), u_steps(True), u_steps(False), u_keys(), u_delay(True), u_delay(False), u_env_ctor(), u_drift(False, False), u_drift(True, False), u_drift(False, True), u_drift_sampled()]
    for p in (FREE, CTX):
        us += [u_history(p, 3, True), u_history(p, 2, False), u_any_state(p), u_gt_history(p), u_replay_history(p)]
        for pos in (True, False):
            us += [u_gt_memoryless(p, pos), u_replay_memoryless(p, pos)]
    for given in (True, False):
        for delays in (True, False):
            for single in (True, False):
                us.append(u_env(given, delays, single))
    return us
