"""Path engine: forks on undetermined conditions by re-execution."""
from __future__ import annotations
from . import terms as tm
from . import norm as nm
from . import solve
from .solve import Ctx
from .values import EngineHook, Unsupported, SymRaise
from .terms import TRUE, FALSE


class PathLimit(Exception):
    pass


class Infeasible(Exception):
    pass


class Frame:
    def __init__(self, ctx, trace=()):
        self.ctx = ctx
        self.trace = list(trace)
        self.pos = 0
        self.pending = []
        self.conds = []


def emptiness(t):
    """length == 0 of a mask-selected axis, as a statement about its members"""
    if t.op == "not":
        u = emptiness(t.args[0])
        return t if u is t.args[0] else tm.not_(u)
    if t.op != "eq" or not (tm.is_num(t.args[0], 0) or tm.is_num(t.args[1], 0)):
        return t
    from .shim_np import RANKREG
    x = t.args[1] if tm.is_num(t.args[0], 0) else t.args[0]
    try:
        ax = RANKREG.get(nm.norm(x).id)
    except nm.TooBig:
        ax = None
    return t if ax is None else tm.not_(ax.some())


class Engine:
    def __init__(self, hyps=(), max_paths=400):
        self.base = Ctx(hyps)
        self.frames = []
        self.max_paths = max_paths
        self.npaths = 0
        self.decided = {}
        self.obligations = []     # (name, term, ctx copy)

    @property
    def ctx(self):
        return self.frames[-1].ctx

    def assume(self, t):
        self.ctx.add(t)
        self.frames[-1].conds.append(t)

    def known(self, t):
        return solve.prove(t, self.ctx)

    def branch(self, t):
        t = emptiness(tm.as_bool(t))
        fr = self.frames[-1]
        d = self._lookup(t)
        if d is not None:
            return d
        key = (t, tuple(fr.ctx.hyps), tuple(fr.ctx.quants))
        if key in self.decided:
            d = self.decided[key]
        else:
            d = self.decided[key] = solve.decide(t, fr.ctx)
        if d is not None:
            return d
        if fr.pos < len(fr.trace):
            v = fr.trace[fr.pos]
        else:
            v = True
            fr.trace.append(True)
            fr.pending.append(fr.trace[:-1] + [False])
        fr.pos += 1
        self.assume(t if v else tm.not_(t))
        return v

    def _lookup(self, t):
        for fr in self.frames:
            for c in fr.conds:
                if c is t:
                    return True
                if c.op == "not" and c.args[0] is t:
                    return False
                if t.op == "not" and t.args[0] is c:
                    return False
        return None

    def explore(self, fn, nested=False, restore=None):
        """run fn under every feasible decision sequence.
        yields (conds, kind, value) with kind in 'ret','raise'"""
        out = []
        work = [[]]
        parent_ctx = self.frames[-1].ctx if self.frames else self.base
        while work:
            trace = work.pop()
            self.npaths += 1
            if len(out) > self.max_paths:
                raise PathLimit("too many paths")
            fr = Frame(parent_ctx.copy(), trace)
            self.frames.append(fr)
            prev = EngineHook.cur
            EngineHook.cur = self
            if restore is not None:
                restore()
            try:
                try:
                    v = fn()
                    res = ("ret", v)
                except SymRaise as e:
                    res = ("raise", e.exc)
                except Infeasible:
                    res = None
            finally:
                self.frames.pop()
                EngineHook.cur = prev
            work.extend(fr.pending)
            if res is not None:
                out.append((list(fr.conds), res[0], res[1], fr.ctx))
        return out
