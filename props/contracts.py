"""Contracts of the shared callees (used at call sites) and the units that verify their bodies."""
from .common import *
from pv import norm as nm


def rank_ok(a, dim):
    """is a numpy array with the given number of axes"""
    return isinstance(a, (SArr, np.ndarray)) and a.ndim == dim


def A_(a):
    return a if isinstance(a, SArr) else to_arr(a)


def shape(a, k):
    a = A_(a)
    return a.axes[k].length()


def is_int(a):
    return A_(a).kind in ("int", "bool") and A_(a).kind == "int"


def spec_check_array(array, name, expected_dim=1):
    if not rank_ok(array, expected_dim):
        raise_value()
    return None


def all_of(a, p):
    a = A_(a)
    f = a.at

    def go(j, idx):
        if j == a.ndim:
            return p(f(*idx))
        return Forall(a.axes[j].n, lambda i: implies(a.axes[j].guard(i), go(j + 1, idx + [i])) if a.axes[j].guard is not None else go(j + 1, idx + [i]))
    return go(0, [])


def spec_check_ope_inputs(action_dist, position=None, action=None, reward=None, pscore=None, estimated_rewards_by_reg_model=None, estimated_importance_weights=None):
    """accepts exactly the well-formed inputs"""
    if not rank_ok(action_dist, 3):
        raise_value()
    P = A_(action_dist)
    n, A, L = [x.length() for x in P.axes]
    ok = [Forall(n, lambda i: Forall(L, lambda l: app_allclose(Sum(A, lambda a: P.at(i, a, l)))))]
    if position is not None:
        if not rank_ok(position, 1) or not is_int(position):
            raise_value()
        ok.append(eq(shape(position, 0), n))
        ok.append(all_of(position, lambda v: and_(le(ZERO, v), lt(v, L))))
    else:
        ok.append(le(L, ONE))
    if estimated_rewards_by_reg_model is not None:
        q = A_(estimated_rewards_by_reg_model)
        if q.ndim != 3:
            raise_value()
        ok += [eq(shape(q, k), shape(P, k)) for k in range(3)]
    if action is not None or reward is not None:
        if not rank_ok(action, 1) or not rank_ok(reward, 1) or not is_int(action):
            raise_value()
        ok.append(eq(shape(action, 0), shape(reward, 0)))
        ok.append(all_of(action, lambda v: and_(le(ZERO, v), lt(v, A))))
    if estimated_importance_weights is not None:
        w = A_(estimated_importance_weights)
        ok.append(eq(shape(w, 0), shape(action, 0)))
        ok.append(all_of(w, lambda v: le(ZERO, v)))
    if pscore is not None:
        if A_(pscore).ndim != 1:
            raise_value()
        ok.append(eq(shape(pscore, 0), shape(action, 0)))
        ok.append(all_of(pscore, lambda v: lt(ZERO, v)))
    if not decide(and_(*ok)):
        raise_value()
    return None


def app_allclose(s):
    """np.allclose(s, 1) with the default tolerances"""
    return le(abs_(s - ONE), tm.num("1/100000") + tm.num("1/100000000"))


def spec_check_multi_loggers_ope_inputs(action_dist, position=None, action=None, reward=None, stratum_idx=None, pscore=None, estimated_rewards_by_reg_model=None):
    spec_check_ope_inputs(action_dist, position, action, reward, pscore, estimated_rewards_by_reg_model)
    if stratum_idx is not None:
        if not rank_ok(stratum_idx, 1) or not is_int(stratum_idx):
            raise_value()
        if not decide(and_(eq(shape(stratum_idx, 0), shape(action_dist, 0)), all_of(stratum_idx, lambda v: le(ZERO, v)))):
            raise_value()


def spec_check_bandit_feedback_inputs(context, action, reward, expected_reward=None, position=None, pscore=None, action_context=None):
    if not (rank_ok(context, 2) and rank_ok(action, 1) and rank_ok(reward, 1) and is_int(action)):
        raise_value()
    n = shape(context, 0)
    ok = [eq(shape(action, 0), n), eq(shape(reward, 0), n), all_of(action, lambda v: le(ZERO, v))]
    if expected_reward is not None:
        if not rank_ok(expected_reward, 2):
            raise_value()
        ok += [eq(shape(expected_reward, 0), n), all_of(action, lambda v: lt(v, shape(expected_reward, 1)))]
    if pscore is not None:
        if not rank_ok(pscore, 1):
            raise_value()
        ok += [eq(shape(pscore, 0), n), all_of(pscore, lambda v: lt(ZERO, v))]
    if position is not None:
        if not rank_ok(position, 1) or not is_int(position):
            raise_value()
        ok += [eq(shape(position, 0), n), all_of(position, lambda v: le(ZERO, v))]
    if action_context is not None:
        if not rank_ok(action_context, 2):
            raise_value()
        ok += [all_of(action, lambda v: lt(v, shape(action_context, 0)))]
    if not decide(and_(*ok)):
        raise_value()


def spec_check_continuous_bandit_feedback_inputs(context, action_by_behavior_policy, reward, expected_reward=None, pscore=None):
    if not (rank_ok(context, 2) and rank_ok(action_by_behavior_policy, 1) and rank_ok(reward, 1)):
        raise_value()
    n = shape(context, 0)
    ok = []
    if expected_reward is not None:
        if not rank_ok(expected_reward, 1):
            raise_value()
        ok += [eq(shape(x, 0), n) for x in (action_by_behavior_policy, reward, expected_reward)]
    if pscore is not None:
        if not rank_ok(pscore, 1):
            raise_value()
        ok += [eq(shape(x, 0), n) for x in (action_by_behavior_policy, reward, pscore)] + [all_of(pscore, lambda v: lt(ZERO, v))]
    if not decide(and_(*ok)):
        raise_value()


def spec_check_continuous_ope_inputs(action_by_evaluation_policy, action_by_behavior_policy=None, reward=None, pscore=None, estimated_rewards_by_reg_model=None):
    if not rank_ok(action_by_evaluation_policy, 1):
        raise_value()
    n = shape(action_by_evaluation_policy, 0)
    ok = []
    if estimated_rewards_by_reg_model is not None:
        if not rank_ok(estimated_rewards_by_reg_model, 1):
            raise_value()
        ok.append(eq(shape(estimated_rewards_by_reg_model, 0), n))
    if action_by_behavior_policy is not None or reward is not None:
        if not (rank_ok(action_by_behavior_policy, 1) and rank_ok(reward, 1)):
            raise_value()
        ok += [eq(shape(action_by_behavior_policy, 0), n), eq(shape(reward, 0), n)]
    if pscore is not None:
        if not rank_ok(pscore, 1):
            raise_value()
        ok += [eq(shape(pscore, 0), n), all_of(pscore, lambda v: lt(ZERO, v))]
    if not decide(and_(*ok)):
        raise_value()


CONTRACTS = {
    "obp.utils:check_array": FnContract("obp.utils:check_array", spec_check_array),
    "obp.utils:check_ope_inputs": FnContract("obp.utils:check_ope_inputs", spec_check_ope_inputs),
    "obp.utils:check_multi_loggers_ope_inputs": FnContract("obp.utils:check_multi_loggers_ope_inputs", spec_check_multi_loggers_ope_inputs),
    "obp.utils:check_bandit_feedback_inputs": FnContract("obp.utils:check_bandit_feedback_inputs", spec_check_bandit_feedback_inputs),
    "obp.utils:check_continuous_bandit_feedback_inputs": FnContract("obp.utils:check_continuous_bandit_feedback_inputs", spec_check_continuous_bandit_feedback_inputs),
    "obp.utils:check_continuous_ope_inputs": FnContract("obp.utils:check_continuous_ope_inputs", spec_check_continuous_ope_inputs),
}
VALIDATION = tuple(CONTRACTS)


# element-wise sigmoid as a symbol; its formula and its range are proved in P12
def _sigmoid(x):
    a = to_arr(x)
    nm.DECL["sigmoid"] = dict(lo=0, hi=1)
    return SArr(a.axes, lambda *i: app("sigmoid", tm.as_num(a.at(*i))))


CONTRACTS["obp.utils:sigmoid"] = FnContract("obp.utils:sigmoid", _sigmoid)


def g_int(hi):
    """integer codes, mostly valid"""
    def gen(rng, env, sh, style):
        h = int(tm.ev(hi, env)) if isinstance(hi, T) else hi
        x = rng.randint(0, max(h, 1), size=sh)
        if rng.rand() < 0.3 and x.size:
            x.flat[rng.randint(x.size)] = rng.choice([-1, h, h + 1, h - 1])
        return x
    return gen


def g_pos(rng, env, sh, style):
    x = rng.rand(*sh) + 1e-3
    if rng.rand() < 0.3 and x.size:
        x.flat[rng.randint(x.size)] = rng.choice([0.0, -0.1, 1e-9, 1.5])
    return x


def g_dist(rng, env, sh, style):
    x = rng.rand(*sh) + 0.01
    x = x / x.sum(1, keepdims=True)
    if rng.rand() < 0.3:
        x.flat[rng.randint(x.size)] += rng.choice([0.1, -0.1, 1e-3, 1e-7, -1e-4, 2e-5])
    return x


def same_or(rng_name, base):
    """a second dimension that usually equals the first one"""
    return lambda rng, env: env.vars[base] if rng.rand() < 0.8 else rng.randint(1, 5)


class Dims:
    """dimension names for arrays whose lengths need not agree"""

    def __init__(self, D, base="n", hi=4):
        self.D, self.base = D, base
        self.n = D.dim(base, 1, hi)
        self.k = 0

    def like(self):
        self.k += 1
        s = self.D.int(f"{self.base}{self.k}", lo=1, gen=same_or(None, self.base))
        return term(s)


def validation_units():
    us = []

    def chk_array(ndim, want):
        def build(D):
            dims = [D.dim(f"m{k}", 1, 3) for k in range(ndim)]
            arr = D.array("arr", dims)

            def body(rt):
                same_outcome(rt, "check_array", lambda: spec_check_array(arr, "x", want), lambda: rt.body(U.check_array, array=arr, name="x", expected_dim=want))
            return body
        return Unit(f"check_array: {ndim}-d array, {want} expected", build, samples=3)
    us += [chk_array(a, b) for a in (1, 2, 3) for b in (1, 2, 3)]

    def chk_nonarray():
        def build(D):
            x = D.real("x")

            def body(rt):
                for v in (None, [1, 2], "a", 3, x, (1.0,)):
                    same_outcome(rt, "check_array", lambda: raise_value(), lambda: rt.body(U.check_array, array=v, name="x", expected_dim=1))
            return body
        return Unit("check_array: anything but an array is rejected", build, samples=3)
    us.append(chk_nonarray())

    # ---- check_ope_inputs against its contract
    def ope(flags, kinds=("int", "int")):
        def build(D):
            dm = Dims(D)
            n, A, L = dm.n, D.dim("A", 1, 3), D.dim("L", 1, 2)
            args = {"action_dist": D.array("pi", (n, A, L), gen=g_dist)}
            if "position" in flags:
                args["position"] = D.array("pos", (dm.like(),), kinds[1], gen=g_int(L))
            if "action" in flags:
                args["action"] = D.array("action", (dm.like(),), kinds[0], gen=g_int(A))
            if "reward" in flags:
                args["reward"] = D.array("reward", (dm.like(),))
            if "pscore" in flags:
                args["pscore"] = D.array("pscore", (dm.like(),), gen=g_pos)
            if "q" in flags:
                s = Dims(D, "qa")
                args["estimated_rewards_by_reg_model"] = D.array("q", (dm.like(), term(D.int("qA", lo=1, gen=same_or(None, "A"))), term(D.int("qL", lo=1, gen=same_or(None, "L")))))
            if "iw" in flags:
                args["estimated_importance_weights"] = D.array("iw", (dm.like(),), gen=g_pos)

            def body(rt):
                same_outcome(rt, "check_ope_inputs", lambda: spec_check_ope_inputs(**args), lambda: rt.body(U.check_ope_inputs, **args))
                inputs_unchanged(rt, *args.values())
            return body
        nm_ = "+".join(flags) or "none"
        return Unit(f"check_ope_inputs({nm_}{'' if kinds == ('int', 'int') else ', ' + '/'.join(kinds)})", build, samples=25)
    R = ("action", "reward")
    us += [ope(()), ope(("position",)), ope(R), ope(("action",)), ope(("reward",)), ope(R + ("pscore",)), ope(R + ("position",)),
           ope(R + ("position", "pscore")), ope(("q",)), ope(("q", "position")), ope(R + ("q", "position", "pscore")),
           ope(R + ("iw",)), ope(R + ("iw", "position")), ope(R, ("float", "int")), ope(R + ("position",), ("int", "float"))]

    def wrong_rank(rank):
        def build(D):
            dims = [D.dim(f"m{k}", 1, 3) for k in range(rank)]
            arr = D.array("arr", dims, lo=0)
            n, A = D.dim("n", 1, 3), D.dim("A", 1, 3)
            pi = D.array("pi", (n, A, ONE), simplex=1)
            act = D.array("action", (n,), "int", lo=0, hiT=A)
            ia = D.array("iarr", dims, "int", lo=0, hiT=ONE)
            rew = D.array("reward", (n,))

            def body(rt):
                rej = lambda name, f: same_outcome(rt, name, raise_value, f)
                if rank != 3:
                    rej("rank of action_dist", lambda: rt.body(U.check_ope_inputs, action_dist=arr))
                    rej("rank of reward model", lambda: rt.body(U.check_ope_inputs, action_dist=pi, estimated_rewards_by_reg_model=arr))
                if rank != 1:
                    rej("rank of action", lambda: rt.body(U.check_ope_inputs, action_dist=pi, action=ia, reward=rew))
                    rej("rank of reward", lambda: rt.body(U.check_ope_inputs, action_dist=pi, action=act, reward=arr))
                    rej("rank of position", lambda: rt.body(U.check_ope_inputs, action_dist=pi, position=ia))
                    rej("rank of pscore", lambda: rt.body(U.check_ope_inputs, action_dist=pi, action=act, reward=rew, pscore=arr))
            return body
        return Unit(f"check_ope_inputs: wrong rank {rank}", build, samples=4)
    us += [wrong_rank(r) for r in (1, 2, 3)]
    return us


# softmax over the last axis, in the unshifted form (equal to the code's shifted form: proved in P12)
def _softmax(x):
    a = to_arr(x).copy() if not isinstance(x, list) else to_arr(x)
    if a.ndim != 2 or any(ax.guard is not None for ax in a.axes):
        raise Unsupported("softmax contract")
    f, n = a.snapshot(), a.axes[1].n
    ex = lambda i, j: app("exp", tm.as_num(f(i, j)))
    if n.op == "num" and n.args[0] <= 6:
        den = lambda i: tm.add(*[ex(i, num(j)) for j in range(int(n.args[0]))])
    else:
        den = lambda i: Sum(n, lambda j: ex(i, j))
    return SArr(a.axes, lambda i, j: ex(i, j) / den(i))


CONTRACTS["obp.utils:softmax"] = FnContract("obp.utils:softmax", _softmax)
