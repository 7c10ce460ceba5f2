"""Slate estimators' input checks: contracts and the units that verify the bodies."""
from .contracts import *


def spec_slate_base(slate_id, reward, position, pscore, ev):
    if not rank_ok(position, 1) or not is_int(position):
        raise_value()
    if not (rank_ok(reward, 1) and rank_ok(pscore, 1) and rank_ok(ev, 1) and rank_ok(slate_id, 1)) or not is_int(slate_id):
        raise_value()
    n = shape(slate_id, 0)
    if not decide(and_(*[eq(shape(x, 0), n) for x in (position, reward, pscore, ev)], all_of(position, lambda v: le(ZERO, v)), all_of(slate_id, lambda v: le(ZERO, v)),
                       all_of(pscore, lambda v: and_(lt(ZERO, v), le(v, ONE))), all_of(ev, lambda v: and_(le(ZERO, v), le(v, ONE))))):
        raise_value()
    return n


def no_dup(n, s, p):
    s, p = A_(s), A_(p)
    return Forall(n, lambda i: Forall(n, lambda j: implies(and_(eq(s.at(i), s.at(j)), eq(p.at(i), p.at(j))), eq(i, j))))


def const_in_slate(n, s, c):
    s, c = A_(s), A_(c)
    return Forall(n, lambda i: Forall(n, lambda j: implies(eq(s.at(i), s.at(j)), eq(c.at(i), c.at(j)))))


def decreasing_in_slate(n, s, p, c):
    s, p, c = A_(s), A_(p), A_(c)
    return Forall(n, lambda i: Forall(n, lambda j: implies(and_(eq(s.at(i), s.at(j)), lt(p.at(j), p.at(i))), le(c.at(i), c.at(j)))))


def spec_check_sips_inputs(slate_id, reward, position, pscore, evaluation_policy_pscore):
    n = spec_slate_base(slate_id, reward, position, pscore, evaluation_policy_pscore)
    if not decide(and_(no_dup(n, slate_id, position), const_in_slate(n, slate_id, pscore), const_in_slate(n, slate_id, evaluation_policy_pscore))):
        raise_value()


def spec_check_iips_inputs(slate_id, reward, position, pscore_item_position, evaluation_policy_pscore_item_position):
    n = spec_slate_base(slate_id, reward, position, pscore_item_position, evaluation_policy_pscore_item_position)
    if not decide(no_dup(n, slate_id, position)):
        raise_value()


def spec_check_rips_inputs(slate_id, reward, position, pscore_cascade, evaluation_policy_pscore_cascade):
    n = spec_slate_base(slate_id, reward, position, pscore_cascade, evaluation_policy_pscore_cascade)
    if not decide(and_(no_dup(n, slate_id, position), decreasing_in_slate(n, slate_id, position, pscore_cascade), decreasing_in_slate(n, slate_id, position, evaluation_policy_pscore_cascade))):
        raise_value()


def spec_check_cascade_dr_inputs(n_unique_action, slate_id, action, reward, position, pscore_cascade, evaluation_policy_pscore_cascade, q_hat, evaluation_policy_action_dist):
    spec_check_rips_inputs(slate_id, reward, position, pscore_cascade, evaluation_policy_pscore_cascade)
    if not (rank_ok(action, 1) and rank_ok(q_hat, 1) and rank_ok(evaluation_policy_action_dist, 1) and is_int(action)):
        raise_value()
    A = term(n_unique_action)
    n = shape(slate_id, 0)
    fl = lambda x: tm.app("idiv", x, A, sort="I") if False else term(Sym(x, "int") // Sym(A, "int"))
    if not decide(and_(eq(shape(action, 0), n), eq(fl(shape(q_hat, 0)), n), eq(fl(shape(evaluation_policy_action_dist, 0)), n), all_of(action, lambda v: and_(le(ZERO, v), lt(v, A))))):
        raise_value()
    P = A_(evaluation_policy_action_dist)
    close = lambda v: le(abs_(ONE - v), tm.num("1/100000") * abs_(v) + tm.num("1/100000000"))
    if not decide(Forall(n, lambda i: close(Sum(A, lambda a: P.at(i * A + a))))):
        raise_value()


SLATE_SPECS = dict(check_sips_inputs=spec_check_sips_inputs, check_iips_inputs=spec_check_iips_inputs, check_rips_inputs=spec_check_rips_inputs, check_cascade_dr_inputs=spec_check_cascade_dr_inputs)
for _k, _f in SLATE_SPECS.items():
    CONTRACTS[f"obp.utils:{_k}"] = FnContract(f"obp.utils:{_k}", _f)
SLATE_VALIDATION = tuple(f"obp.utils:{k}" for k in SLATE_SPECS)


# ---------------------------------------------------------------- generators of (mostly) valid slate data
def g_sid(rng, env, sh, style):
    k = max(1, rng.randint(1, sh[0] + 1))
    x = np.sort(rng.randint(0, k, size=sh)) if rng.rand() < 0.6 else rng.randint(0, k, size=sh)
    if rng.rand() < 0.4:
        x = x * 3 + 2
    return x


def g_slot(name="slate_id", bad=0.0):
    def gen(rng, env, sh, style):
        s = env.arrays[name]
        out = np.zeros(sh, dtype=int)
        for i in range(sh[0]):
            out[i] = sum(1 for j in range(i) if j < len(s) and i < len(s) and s[j] == s[i])
        if rng.rand() < 0.5:
            out = out * 2 + 1
        if rng.rand() < bad and sh[0]:
            i = rng.randint(sh[0])
            out[i] = rng.choice([-1, 0, 1])
        return out
    return gen


def g_ps_slate(kind, lo=0.0, bad=0.0):
    """constant per slate ('const'), non-increasing along positions ('cascade') or free ('item')"""
    def gen(rng, env, sh, style):
        s, p = env.arrays["slate_id"], env.arrays["position"]
        x = rng.choice([0.25, 0.5, 1.0, 0.75], size=sh) if rng.rand() < 0.4 else rng.rand(*sh) * 0.98 + 0.01
        m = min(len(s), len(p), sh[0])
        if kind == "const":
            for i in range(m):
                x[i] = x[[j for j in range(m) if s[j] == s[i]][0]]
        elif kind == "cascade":
            for v in set(s[:m].tolist()):
                idx = [i for i in range(m) if s[i] == v]
                idx.sort(key=lambda i: p[i])
                vals = sorted((x[i] for i in idx), reverse=True)
                for i, w in zip(idx, vals):
                    x[i] = w
        if lo == 0.0 and rng.rand() < 0.2:
            x = x * rng.choice([0.0, 1.0], size=sh)
            if kind != "item":
                x = x * 0
        if rng.rand() < bad and sh[0]:
            x[rng.randint(sh[0])] = rng.choice([0.0, -0.1, 1.0, 1.1, 0.5])
        return x
    return gen


KINDS = {"check_sips_inputs": ("pscore", "const"), "check_iips_inputs": ("pscore_item_position", "item"), "check_rips_inputs": ("pscore_cascade", "cascade")}


def slate_args(D, fn, bad=0.0, mism=False, kinds=("int", "int")):
    dm = Dims(D, "N", hi=6)
    m = dm.like if mism else (lambda: dm.n)
    ps, kd = KINDS[fn]
    b = bad
    a = dict(slate_id=D.array("slate_id", (dm.n,), kinds[0], gen=g_sid if not bad else (lambda rng, env, sh, style: g_sid(rng, env, sh, style) - (rng.rand() < 0.1))))
    a["position"] = D.array("position", (m(),), kinds[1], gen=g_slot(bad=b))
    a["reward"] = D.array("reward", (m(),))
    a[ps] = D.array("ps", (m(),), gen=g_ps_slate(kd, 0.01, b))
    a["evaluation_policy_" + ps] = D.array("eps", (m(),), gen=g_ps_slate(kd, 0.0, b))
    return dm.n, a, ps


def slate_validation_units():
    us = []

    def val(fn, mism, kinds=("int", "int")):
        def build(D):
            n, args, ps = slate_args(D, fn, bad=0.35, mism=mism, kinds=kinds)

            def body(rt):
                same_outcome(rt, fn, lambda: SLATE_SPECS[fn](**args), lambda: rt.body(getattr(U, fn), **args))
                inputs_unchanged(rt, *args.values())
            return body
        return Unit(f"{fn}{': lengths may differ' if mism else ''}{'' if kinds == ('int', 'int') else ' ' + '/'.join(kinds)}", build, samples=40)

    def wrong(fn, which, rank):
        def build(D):
            n, args, ps = slate_args(D, fn)
            dims = [D.dim(f"m{k}", 1, 3) for k in range(rank)]
            key = which if which in args else (ps if which == "ps" else "evaluation_policy_" + ps)
            args[key] = D.array("other", dims, args[key].kind, lo=0, hi=1)

            def body(rt):
                same_outcome(rt, fn, raise_value, lambda: rt.body(getattr(U, fn), **args))
                args2 = dict(args)
                args2[key] = [0, 1]
                same_outcome(rt, fn + " of a list", raise_value, lambda: rt.body(getattr(U, fn), **args2))
            return body
        return Unit(f"{fn}: {which} of rank {rank}", build, samples=3)

    def cdr(q_len, kind="int"):
        def build(D):
            n, args, ps = slate_args(D, "check_rips_inputs", bad=0.05)
            A = D.int("A", lo=1, gen=lambda r, e: r.randint(1, 4))
            At = term(A)
            args["n_unique_action"] = A
            args["action"] = D.array("action", (n,), kind, gen=g_int(At))
            ln = n * At if q_len == "ok" else None
            m1 = ln if ln is not None else term(D.int("m1", lo=1, gen=lambda r, e: e.vars["N"] * e.vars["A"] + r.choice([0, 0, 1, -1, e.vars["A"]]) if True else 0))
            m2 = n * At if q_len != "dist" else term(D.int("m2", lo=1, gen=lambda r, e: max(1, e.vars["N"] * e.vars["A"] + r.choice([e.vars["A"], -e.vars["A"]]))))
            if q_len == "dist":
                m1 = n * At
                D.hyp(tm.eq(term(Sym(m2, "int") % A), ZERO)) if False else None
            args["q_hat"] = D.array("q", (m1,))

            def g(rng, env, sh, style):
                A_n = env.vars["A"]
                if sh[0] % A_n:
                    return rng.rand(*sh)
                x = rng.rand(sh[0] // A_n, A_n) + 0.01
                x = x / x.sum(1, keepdims=True)
                if rng.rand() < 0.3 and x.size:
                    x.flat[rng.randint(x.size)] += rng.choice([0.1, -0.1, 1e-3])
                return x.reshape(-1)
            args["evaluation_policy_action_dist"] = D.array("dist", (m2,), gen=g)
            if q_len == "q":
                args["evaluation_policy_action_dist"] = D.array("dist2", (n * At,), gen=g)

            def body(rt):
                same_outcome(rt, "check_cascade_dr_inputs", lambda: spec_check_cascade_dr_inputs(**args), lambda: rt.body(U.check_cascade_dr_inputs, **args))
            return body
        return Unit(f"check_cascade_dr_inputs ({q_len}, {kind} actions)", build, samples=30, contracts=("obp.utils:check_rips_inputs",))
    for fn in KINDS:
        us += [val(fn, False), val(fn, True), val(fn, False, ("float", "int")), val(fn, False, ("int", "float"))]
        for w in ("slate_id", "position", "reward", "ps", "eps"):
            us.append(wrong(fn, w, 2))
    us += [cdr("ok"), cdr("ok", "float"), cdr("q")]
    return us
