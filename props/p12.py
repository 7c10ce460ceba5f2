"""Probability primitives: softmax, sigmoid, action sampling, action distributions."""
from .common import *
from .contracts import VALIDATION


def arr(rt, x):
    """an array produced by the code, readable by the specification"""
    return rt.arr(x)


def soft(n, f):
    """softmax of the row f(0..n-1), written in the shifted form"""
    m = Max(n, f)
    den = Sum(n, lambda j: exp(f(j) - m))
    return lambda j: exp(f(j) - m) / den


def sig(t):
    return ite(le(ZERO, t), ONE / (ONE + exp(ZERO - t)), exp(t) / (ONE + exp(t)))


def u_softmax(kind):
    def build(D):
        n, A = D.dim("n", 1, 4), D.dim("A", 1, 5)
        x = D.array("x", (n, A), kind, gen=lambda rng, env, sh, style: (rng.randn(*sh) * {"big": 500, "edge": 50}.get(style, 2)).astype(kind if kind == "float" else int))

        def body(rt):
            p = arr(rt, rt.body(U.softmax, x))
            rt.check_eq("softmax", p if not rt.concrete else rt.mat(p), SArr((n, A), lambda i, a: soft(A, lambda j: x.at(i, j))(a)))
            if not rt.concrete:
                rt.check_eq("softmax, unshifted form", p, SArr((n, A), lambda i, a: app("exp", x.at(i, a)) / Sum(A, lambda j: app("exp", x.at(i, j)))))
            rt.check("rows sum to one", Forall(n, lambda i: eq(Sum(A, lambda a: p.at(i, a)), ONE)))
            rt.check("entries are non-negative", Forall(n, lambda i: Forall(A, lambda a: le(ZERO, p.at(i, a)))))
            inputs_unchanged(rt, x)
        return body
    return Unit(f"softmax of {kind} scores", build, samples=30)


def u_sigmoid(shape):
    def build(D):
        dims = tuple(D.dim(f"d{k}", 1, 4) for k in range(shape))
        x = D.array("x", dims, gen=lambda rng, env, sh, style: rng.randn(*sh) * {"big": 500, "edge": 50}.get(style, 2)) if shape else D.real("x")

        def body(rt):
            y = rt.body(U.sigmoid, x)
            if shape:
                rt.check_eq("sigmoid", y, SArr(dims, lambda *i: sig(x.at(*i))))
            else:
                rt.check_eq("sigmoid", y, sig(term(x)))
                e = exp(term(x)) if rt.decide(le(term(x), ZERO)) else exp(ZERO - term(x))
                for z in (e / (ONE + e), ONE / (ONE + e)):      # the two branches of the formula above
                    rt.check("between 0 and 1", and_(le(ZERO, z), le(z, ONE)))
        return body
    return Unit(f"sigmoid of a {shape}-dimensional argument", build, samples=30)


def first_above(pi, A, i, u):
    """inverse of the cumulative distribution: the first action whose cumulated probability exceeds u"""
    return ArgMax(A, lambda a: iv(lt(u, Sum(a + ONE, lambda b: pi(i, b)))))


def u_sample():
    def build(D):
        n, A = D.dim("n", 1, 6), D.dim("A", 1, 5)
        pi = D.array("pi", (n, A), simplex=1, lo=0)
        seed = D.int("seed", lo=0, gen=lambda r, e: r.randint(0, 1000))

        def body(rt):
            u = arr(rt, rt.rng(seed).uniform(size=Sym(n, "int")))
            out = rt.body(U.sample_action_fast, pi, random_state=seed)
            a = arr(rt, out)
            rt.check_eq("inverse transform", out, SArr((n,), lambda i: first_above(pi.at, A, i, u.at(i)), "int"))
            rt.check("in range", Forall(n, lambda i: and_(le(ZERO, a.at(i)), lt(a.at(i), A))))
            for i in rt.each(n):
                F = lambda k: Sum(k + ONE, lambda b: pi.at(i, b))
                rt.lemma("the cumulated distribution reaches one", eq(F(A - ONE), ONE))
                argmax_facts(rt, a.at(i), A - ONE)
                argmax_facts(rt, a.at(i), a.at(i) - ONE)
                rt.lemma("the threshold is passed at the sampled action", lt(u.at(i), F(a.at(i))))
                rt.lemma("and not before", implies(le(ONE, a.at(i)), le(F(a.at(i) - ONE), u.at(i))))
                sum_step(rt, lambda b: pi.at(i, b), a.at(i))
                rt.lemma("increment", eq(F(a.at(i)), F(a.at(i) - ONE) + pi.at(i, a.at(i))))
                rt.lemma("empty sum", implies(eq(a.at(i), ZERO), eq(F(a.at(i) - ONE), ZERO)))
                rt.check("never an action of probability zero", lt(ZERO, pi.at(i, a.at(i))))
            again = rt.body(U.sample_action_fast, pi, random_state=seed)
            rt.check_eq("same seed, same actions", again, a)
            inputs_unchanged(rt, pi)
        return body
    return Unit("sample_action_fast", build, samples=30)


def u_convert(L):
    def build(D):
        n, A = D.dim("n", 1, 4), D.dim("A", 1, 4)
        Ln = D.dim("L", 1, 3) if L is None else num(L)
        sel = D.array("sel", (n, Ln), "int", lo=0, hiT=A)

        def body(rt):
            out = rt.body(U.convert_to_action_dist, Sym(A, "int"), sel)
            rt.check_eq("one-hot of the selected actions", out, SArr((n, A, Ln), lambda i, a, p: iv(eq(sel.at(i, p), a))))
            d = arr(rt, out)
            rt.check("every slot is a distribution", Forall(n, lambda i: Forall(Ln, lambda p: eq(Sum(A, lambda a: d.at(i, a, p)), ONE))))
            inputs_unchanged(rt, sel)
        return body
    return Unit(f"convert_to_action_dist, {'any number of' if L is None else L} slots", build, samples=25)


def units():
    return [u_softmax("float"), u_softmax("int"), u_sigmoid(0), u_sigmoid(1), u_sigmoid(2), u_sample(), u_convert(None), u_convert(1), u_convert(2)]
