"""Engine self-test: false contracts must fail, true ones must hold (run by setup_cmd)."""
from __future__ import annotations
import numpy as np
from . import verify as V
from .terms import Sum, ZERO, ONE, num


def good_mean(x): return np.mean(x)
def bad_mean(x): return np.sum(x) / (x.shape[0] + 1)
def clip_copy(x, lam):
    y = np.minimum(x, lam)
    return y
def clip_inplace(x, lam):
    x[x > lam] = lam
    return x
def loop_total(x):
    s = 0.0
    for i in range(x.shape[0]):
        s += x[i]
    return s
def loop_skip_first(x):
    s = 0.0
    for i in range(1, x.shape[0]):
        s += x[i]
    return s


def selftest():
    import os
    from . import interp
    interp.EXTRA_SRC.add(os.path.abspath(__file__))
    from props.common import min2, term, inputs_unchanged, SArr

    def unit(name, fn, spec, two=False, frame=False):
        def build(D):
            n = D.dim("n", 1, 5)
            x = D.array("x", (n,))
            lam = D.real("lam")

            def body(rt):
                v = rt.body(fn, x=x, lam=lam) if two else rt.body(fn, x=x)
                rt.check_eq("result", v, spec(n, x, lam))
                if frame:
                    inputs_unchanged(rt, x)
            return body
        return V.Unit(name, build)
    mean = lambda n, x, l: Sum(n, lambda i: x.at(i)) / n
    tot = lambda n, x, l: Sum(n, lambda i: x.at(i))
    clip = lambda n, x, l: SArr((n,), lambda i: min2(x.orig(i), term(l)))
    cases = [(unit("mean", good_mean, mean), "proved"), (unit("wrong mean", bad_mean, mean), "failed"),
             (unit("clip", clip_copy, clip, True, True), "proved"), (unit("clip that modifies its input", clip_inplace, clip, True, True), "failed"),
             (unit("loop", loop_total, tot), "proved"), (unit("loop that skips", loop_skip_first, tot), "failed")]
    rc = 0
    for u, want in cases:
        r = V.run_symbolic(u, {})
        ok = r.status == want
        print(("ok  " if ok else "BAD ") + u.name, r.status, r.reason[:200])
        rc |= not ok
    import importlib, os, glob
    for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "props", "p[0-9]*.py"))):
        importlib.import_module("props." + os.path.basename(f)[:-3])
    return int(rc)
