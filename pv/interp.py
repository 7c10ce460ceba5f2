"""Meta-interpreter for the Python AST of the repository's own functions.

Every function whose source lies under /repo/obp is interpreted from the file on
disk; library functions go through the shim table (assumed contracts)."""
from __future__ import annotations
import ast
import collections
import builtins
import dataclasses
import enum
import functools
import inspect
import operator
import os
import types
import numpy as np
from . import terms as tm
from .terms import T, ZERO, ONE, TRUE, FALSE
from .values import (Sym, SymKey, SArr, SList, Axis, Unsupported, SymRaise, EngineHook, decide, wrap, term, nterm,
                     to_arr, is_symbolic, kind_of)
from . import norm as nm

REPO = os.environ.get("PV_REPO", "/repo")
SRC_ROOT = os.path.join(REPO, "obp")
EXTRA_SRC = set()       # used by the self-test only

SHIM = {}            # id(callable) -> python implementation on symbolic values
SHIM_KEEP = []       # keep objects alive
ATTR_SHIM = {}       # (id(obj), name)
NATIVE_OK = set()


def shim(*fns):
    def deco(g):
        for f in fns:
            SHIM[id(f)] = g
            SHIM_KEEP.append(f)
        return g
    return deco


# ------------------------------------------------------------- source index
_files = {}
TOUCHED = {}     # key -> number of interpretations (functions actually interpreted)


def file_index(path):
    d = _files.get(path)
    if d is None:
        src = open(path).read()
        tree = ast.parse(src)
        d = {}

        def walk(node, qual):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    ln = min([ch.lineno] + [x.lineno for x in ch.decorator_list])
                    d[(ch.name, ln)] = (ch, ".".join(qual + [ch.name]))
                    walk(ch, qual + [ch.name])
                elif isinstance(ch, ast.ClassDef):
                    walk(ch, qual + [ch.name])
                elif isinstance(ch, ast.Lambda):
                    d.setdefault(("<lambda>", ch.lineno), (ch, ".".join(qual + ["<lambda>"])))
                    walk(ch, qual)
                else:
                    walk(ch, qual)
        walk(tree, [])
        _files[path] = d
    return d


def fn_ast(f):
    code = f.__code__
    path = os.path.abspath(code.co_filename)
    if not (path.startswith(SRC_ROOT + os.sep) or path in EXTRA_SRC):
        return None
    r = file_index(path).get((code.co_name, code.co_firstlineno))
    if r is None:
        return None
    mod = os.path.relpath(path, REPO)[:-3].replace(os.sep, ".")
    return r[0], f"{mod}:{r[1]}"


NODES = {}       # key -> ast node of interpreted functions


def node_for_key(k):
    return NODES.get(k)


def fn_key(f):
    r = fn_ast(f)
    return r[1] if r else None


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Poison:
    def __init__(self, why):
        self.why = why


def sym_str(x):
    from . import norm as nm
    return f"<{nm.norm(x.t)}>"


class TrackList(list):
    """list created by interpreted code; may carry a tail of symbolic length"""
    __slots__ = ("opaque", "symtail")
    _shimclass_ = True

    def __init__(self, *a):
        super().__init__(*a)
        self.opaque = False
        self.symtail = None

    def check(self):
        if self.opaque:
            raise Unsupported("read of a list being built by a symbolic loop")

    def _mut(self):
        if self.symtail is not None:
            raise Unsupported("modification of a list with a symbolic tail")

    def append(self, x):
        self._mut()
        list.append(self, x)

    def extend(self, xs):
        self._mut()
        if isinstance(xs, TrackList):
            xs.check()
            xs._mut()
        list.extend(self, xs)

    def insert(self, i, x):
        self._mut()
        self.check()
        list.insert(self, i, x)

    def pop(self, *a):
        self._mut()
        self.check()
        return list.pop(self, *a)

    def remove(self, x):
        self._mut()
        self.check()
        return list.remove(self, x)

    def clear(self):
        self._mut()
        list.clear(self)

    def __getitem__(self, k):
        self.check()
        if self.symtail is not None:
            if list.__len__(self) == 0:
                return self.symtail[k]
            raise Unsupported("index of mixed list")
        if isinstance(k, Sym):
            items = list.__getitem__(self, slice(None))
            return pick(items, k)
        r = list.__getitem__(self, k)
        return TrackList(r) if isinstance(k, slice) else r

    def __iter__(self):
        self.check()
        if self.symtail is not None:
            raise Unsupported("native iteration over symbolic list")
        return list.__iter__(self)

    def __len__(self):
        self.check()
        if self.symtail is not None:
            raise Unsupported("native len of symbolic list")
        return list.__len__(self)

    def __bool__(self):
        self.check()
        if self.symtail is not None:
            raise Unsupported("truth of symbolic list")
        return list.__len__(self) > 0


def sort_order(items, key=None, reverse=False):
    """stable sort of a list of known length; one path per order of the symbolic values"""
    if len(items) > 7:
        raise Unsupported("sort of a long symbolic list")
    ks = [key(x) if key is not None else x for x in items]
    out = []
    for j in range(len(ks)):
        p = len(out)
        while p > 0 and decide(term(ks[out[p - 1]] < ks[j] if reverse else ks[j] < ks[out[p - 1]])):
            p -= 1
        out.insert(p, j)
    return out


def pick(items, k):
    t = term(k)
    n = len(items)
    if decide(tm.lt(t, ZERO)):
        t = tm.add(t, tm.num(n))
    if not decide(tm.and_(tm.le(ZERO, t), tm.lt(t, tm.num(n)))):
        raise SymRaise(IndexError("list index out of range"))
    # scalars can be merged, other values fork
    if all(isinstance(x, (Sym, int, float, bool, np.number)) for x in items):
        from .values import select
        kinds = {kind_of(x) for x in items}
        kd = "float" if "float" in kinds else "int" if "int" in kinds else "bool"
        return wrap(select(t, [term(x) for x in items], kd), kd)
    for j in range(n - 1):
        if decide(tm.eq(t, tm.num(j))):
            return items[j]
    return items[n - 1]


class IFunc:
    """function defined inside interpreted code (closure or lambda)"""

    def __init__(self, node, env, interp, name):
        self.node, self.env, self.interp = node, env, interp
        self.__name__ = name
        a = node.args
        self.defaults = [interp.ev(d, env) for d in a.defaults]
        self.kw_defaults = [interp.ev(d, env) if d is not None else None for d in a.kw_defaults]

    def __call__(self, *args, **kw):
        return self.interp.call_ifunc(self, args, kw)


class Env:
    __slots__ = ("locals", "globals", "parent", "cls", "fname", "selfobj", "closure")

    def __init__(self, globals_, parent=None, cls=None, fname="?"):
        self.locals = {}
        self.globals = globals_
        self.parent = parent
        self.cls = cls
        self.fname = fname
        self.closure = {}


BINOPS = {
    ast.Add: ("__add__", operator.add), ast.Sub: ("__sub__", operator.sub), ast.Mult: ("__mul__", operator.mul),
    ast.Div: ("__truediv__", operator.truediv), ast.FloorDiv: ("__floordiv__", operator.floordiv),
    ast.Mod: ("__mod__", operator.mod), ast.Pow: ("__pow__", operator.pow), ast.MatMult: ("__matmul__", operator.matmul),
    ast.BitAnd: ("__and__", operator.and_), ast.BitOr: ("__or__", operator.or_), ast.BitXor: ("__xor__", operator.xor),
}
CMPOPS = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge,
          ast.Eq: operator.eq, ast.NotEq: operator.ne}

ENGINE_EXC = None


def native(f, *args, **kw):
    """run python code, converting ordinary exceptions into program exceptions"""
    try:
        return f(*args, **kw)
    except (SymRaise, Unsupported, _Return, _Break, _Continue):
        raise
    except Exception as e:
        from .engine import PathLimit, Infeasible
        if isinstance(e, (PathLimit, Infeasible, nm.TooBig, RecursionError, AssertionError)):
            raise
        if engine_fault(f, e):
            raise Unsupported(f"engine: {type(e).__name__}: {e}")
        raise SymRaise(e)


_PV = os.path.dirname(os.path.abspath(__file__)) + os.sep


def engine_fault(f, e):
    """the exception comes from the verifier's own code, not from the library call it stands for"""
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    code = tb.tb_frame.f_code
    if not code.co_filename.startswith(_PV):
        return False
    if code.co_name == "native":
        return isinstance(e, TypeError) and (getattr(f, "__module__", None) or "").startswith("pv.")
    return not isinstance(e, (KeyError, IndexError, ZeroDivisionError, StopIteration))


def deep_symbolic(x, depth=0):
    if isinstance(x, (Sym, SArr, SList, IFunc)) or getattr(x, "_symbolic_", False):
        return True
    if depth > 4:
        return False
    if isinstance(x, TrackList):
        if x.opaque or x.symtail is not None:
            return True
        return any(deep_symbolic(y, depth + 1) for y in list.__iter__(x))
    if isinstance(x, (list, tuple, set)):
        return any(deep_symbolic(y, depth + 1) for y in x)
    if isinstance(x, dict):
        return any(deep_symbolic(y, depth + 1) for y in x.values())
    if isinstance(x, slice):
        return any(deep_symbolic(y) for y in (x.start, x.stop, x.step))
    return False


class Interp:
    def __init__(self, contracts=None):
        self.contracts = contracts or {}
        self.depth = 0
        self.called_contracts = {}
        self.inline_only = set()

    # ---------------------------------------------------------------- calling
    def call(self, f, args, kw):
        if isinstance(f, IFunc):
            return self.call_ifunc(f, args, kw)
        if f is len and len(args) == 1:
            ln = getattr(type(args[0]), "__len__", None)
            if isinstance(ln, types.FunctionType) and fn_ast(ln):
                return self.call_function(ln, args, {})
        s = SHIM.get(id(f))
        if s is not None:
            return native(s, *args, **kw)
        if isinstance(f, types.MethodType):
            fn = f.__func__
            s = SHIM.get(id(fn))
            if s is not None:
                return native(s, f.__self__, *args, **kw)
            if isinstance(fn, types.FunctionType) and fn_ast(fn):
                return self.call_function(fn, (f.__self__,) + tuple(args), kw)
            if is_symbolic(f.__self__) or getattr(type(f.__self__), "_shimclass_", False):
                return native(f, *args, **kw)
            fnm = getattr(fn, "__module__", "") or ""
            if not deep_symbolic(args) and not deep_symbolic(kw) and self.native_allowed(fn):
                return native(f, *args, **kw)
            raise Unsupported(f"call of method {fn!r}")
        if isinstance(f, types.FunctionType):
            if fn_ast(f):
                return self.call_function(f, args, kw)
            if getattr(f, "_shim_", False) or (f.__module__ or "").startswith("pv."):
                return native(f, *args, **kw)
            if not deep_symbolic(args) and not deep_symbolic(kw) and self.native_allowed(f):
                return native(f, *args, **kw)
            raise Unsupported(f"call of {f.__module__}.{f.__qualname__}")
        if isinstance(f, type):
            return self.instantiate(f, args, kw)
        if isinstance(f, functools.partial):
            k2 = dict(f.keywords)
            k2.update(kw)
            return self.call(f.func, tuple(f.args) + tuple(args), k2)
        if getattr(f, "_symbolic_", False) or getattr(type(f), "_shimclass_", False):
            return native(f, *args, **kw)
        # builtin methods / functions
        slf = getattr(f, "__self__", None)
        if slf is not None and not isinstance(slf, types.ModuleType):
            if isinstance(slf, list) and f.__name__ == "sort" and deep_symbolic(list(slf)):
                order = sort_order(list(slf), **kw)
                items = list(slf)
                slf[:] = [items[j] for j in order]
                return None
            if isinstance(slf, dict) and f.__name__ in ("get", "pop", "setdefault") and args and (isinstance(args[0], Sym) or any(isinstance(x, Sym) for x in slf)):
                return self.dict_method(slf, f.__name__, *args)
            if isinstance(slf, (list, dict, set, str, tuple, collections.deque)):
                args = tuple(self.resolve_iter(a) if isinstance(a, (types.GeneratorType,)) else a for a in args)
                return native(f, *args, **kw)
            if is_symbolic(slf):
                return native(f, *args, **kw)
        if not deep_symbolic(args) and not deep_symbolic(kw) and self.native_allowed(f):
            return native(f, *args, **kw)
        cm = getattr(type(f), "__call__", None)
        if isinstance(cm, types.FunctionType) and fn_ast(cm):
            return self.call_function(cm, (f,) + tuple(args), kw)
        raise Unsupported(f"call of {f!r}")

    def native_allowed(self, f):
        m = getattr(f, "__module__", None) or ""
        if isinstance(f, np.ufunc):
            return True
        return m.split(".")[0] in ("numpy", "builtins", "math", "typing", "copy", "logging", "warnings", "pathlib",
                                   "itertools", "functools", "collections", "operator", "abc", "dataclasses", "enum",
                                   "_operator", "scipy", "") or id(f) in NATIVE_OK or m == ""

    def instantiate(self, cls, args, kw):
        if not any(getattr(c, "__module__", "").startswith("obp") for c in cls.__mro__) or issubclass(cls, enum.Enum):
            if issubclass(cls, BaseException):
                return cls(*[a if not deep_symbolic(a) else "<symbolic>" for a in args])
            if cls in (list,):
                return TrackList(self.resolve_iter(args[0]) if args else ())
            if cls in (dict, tuple, set):
                args = tuple(self.resolve_iter(a) if not isinstance(a, dict) else a for a in args)
                return native(cls, *args, **kw)
            if not deep_symbolic(args) and not deep_symbolic(kw):
                return native(cls, *args, **kw)
            if cls.__module__ == "itertools":
                args = tuple(list(self.resolve_iter(a)) if deep_symbolic(a) and not isinstance(a, Sym) else a for a in args)
                cs = [nm.norm(a.t) if isinstance(a, Sym) else None for a in args]
                if any(c is not None and c.op != "num" for c in cs):
                    raise Unsupported("itertools with a symbolic argument")
                args = tuple(int(c.args[0]) if c is not None else a for a, c in zip(args, cs))
                return iter(list(cls(*args, **kw)))
            raise Unsupported(f"instantiation of {cls}")
        if getattr(cls, "__abstractmethods__", None):
            raise SymRaise(TypeError(f"Can't instantiate abstract class {cls.__name__}"))
        new = cls.__new__
        if isinstance(new, types.FunctionType) and fn_ast(new):
            obj = self.call_function(new, (cls,) + tuple(args), kw)
            if not isinstance(obj, cls):
                return obj
        else:
            obj = object.__new__(cls)
        init = cls.__init__
        if isinstance(init, types.FunctionType) and fn_ast(init):
            self.call_function(init, (obj,) + tuple(args), kw)
        elif dataclasses.is_dataclass(cls) and isinstance(init, types.FunctionType):
            self.dataclass_init(cls, obj, args, kw)
        elif init is object.__init__:
            pass
        else:
            raise Unsupported(f"constructor of {cls}")
        return obj

    def dataclass_init(self, cls, obj, args, kw):
        fields = [f for f in dataclasses.fields(cls) if f.init]
        if len(args) > len(fields):
            raise SymRaise(TypeError("too many positional arguments"))
        vals = {}
        for f, a in zip(fields, args):
            vals[f.name] = a
        for k, v in kw.items():
            if k in vals or k not in {f.name for f in fields}:
                raise SymRaise(TypeError(f"unexpected keyword argument {k}"))
            vals[k] = v
        for f in dataclasses.fields(cls):
            if f.name in vals:
                v = vals[f.name]
            elif f.default is not dataclasses.MISSING:
                v = f.default
            elif f.default_factory is not dataclasses.MISSING:
                v = f.default_factory()
            elif not f.init:
                continue
            else:
                raise SymRaise(TypeError(f"missing argument {f.name}"))
            object.__setattr__(obj, f.name, v)
        post = getattr(cls, "__post_init__", None)
        if post is not None:
            self.call_function(post, (obj,), {})

    def bind(self, f, args, kw):
        sig = inspect.signature(f)
        try:
            ba = sig.bind(*args, **kw)
        except TypeError as e:
            raise SymRaise(e)
        ba.apply_defaults()
        return dict(ba.arguments)

    def call_function(self, f, args, kw):
        node, key = fn_ast(f)
        c = self.contracts.get(key)
        if c is not None and key not in self.inline_only:
            a = self.bind(f, args, kw)
            self.called_contracts[key] = self.called_contracts.get(key, 0) + 1
            return c.apply(self, a)
        return self.run_function(f, args, kw)

    def run_function(self, f, args, kw):
        node, key = fn_ast(f)
        TOUCHED[key] = TOUCHED.get(key, 0) + 1
        NODES[key] = node
        bound = self.bind(f, args, kw)
        env = Env(f.__globals__, None, None, key)
        if f.__closure__:
            for name, cell in zip(f.__code__.co_freevars, f.__closure__):
                try:
                    env.closure[name] = cell.cell_contents
                except ValueError:
                    pass
        for k, v in bound.items():
            env.locals[k] = v
        return self.run_body(node, env)

    def run_body(self, node, env):
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("recursion too deep")
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, env)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node)):
                raise Unsupported("generator function")
            try:
                self.block(node.body, env)
            except _Return as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    def call_ifunc(self, f, args, kw):
        a = f.node.args
        env = Env(f.env.globals, f.env, f.env.cls, f.env.fname)
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = dict(zip(names, args))
        if len(args) > len(names):
            if a.vararg is None:
                raise SymRaise(TypeError("too many arguments"))
            vals[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg is not None:
            vals[a.vararg.arg] = ()
        extra = {}
        allowed = set(names) | {x.arg for x in a.kwonlyargs}
        for k, v in kw.items():
            if k in allowed:
                vals[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise SymRaise(TypeError(f"unexpected keyword {k}"))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = extra
        for n, d in zip(names[len(names) - len(f.defaults):], f.defaults):
            vals.setdefault(n, d)
        for x, d in zip(a.kwonlyargs, f.kw_defaults):
            if x.arg not in vals:
                vals[x.arg] = d
        for n in names:
            if n not in vals:
                raise SymRaise(TypeError(f"missing argument {n}"))
        env.locals.update(vals)
        return self.run_body(f.node, env)

    # ------------------------------------------------------------- statements
    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        return m(s, env)

    def s__Append(self, s, env):
        s.run()

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.locals[t.id] = v
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            if is_symbolic(o) and not getattr(o, "_settable_", False):
                raise Unsupported("attribute store on symbolic")
            native(setattr, o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev(t.slice, env)
            self.setitem(o, k, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(self.resolve_iter(v))
            if any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unsupported("starred assignment")
            if len(vs) != len(t.elts):
                raise SymRaise(ValueError("unpack mismatch"))
            for x, y in zip(t.elts, vs):
                self.assign(x, y, env)
        else:
            raise Unsupported("assignment target")

    def setitem(self, o, k, v):
        if isinstance(o, np.ndarray) and (deep_symbolic(k) or deep_symbolic(v)):
            raise Unsupported("symbolic write into concrete array")
        if isinstance(o, list) and isinstance(k, Sym):
            raise Unsupported("symbolic list store")
        if isinstance(o, dict):
            k = self.dict_key(o, k, True)
        native(operator.setitem, o, k, v)

    def dict_method(self, o, name, k, *default):
        k = self.dict_key(o, k, True)
        if k in o:
            return o.pop(k) if name == "pop" else o[k]
        if name == "pop" and not default:
            raise SymRaise(KeyError("<symbolic>"))
        v = default[0] if default else None
        if name == "setdefault":
            o[k] = v
        return v

    def dict_key(self, o, k, create):
        """the key of `o` equal to k, where keys may be symbolic numbers"""
        number = isinstance(k, Sym) or (isinstance(k, (int, float, np.number)) and not isinstance(k, bool))
        if not number:
            return k
        if not isinstance(k, Sym) and not any(isinstance(x, Sym) for x in o):
            return k
        for x in list(o):
            if isinstance(x, Sym) or (isinstance(x, (int, float, np.number)) and not isinstance(x, bool)):
                if x is k or decide(term(self.compare(ast.Eq(), x, k))):
                    return x
        if not create:
            raise SymRaise(KeyError("<symbolic>"))
        return SymKey(k.t, k.kind, k.meta) if isinstance(k, Sym) else k

    def s_AugAssign(self, s, env):
        opn, opf = BINOPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load(t.id, env)
            v = self.ev(s.value, env)
            env.locals[t.id] = self.aug(cur, v, opn, opf)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr(o, t.attr)
            v = self.ev(s.value, env)
            native(setattr, o, t.attr, self.aug(cur, v, opn, opf))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev(t.slice, env)
            cur = self.subscript(o, k)
            v = self.ev(s.value, env)
            r = self.aug(cur, v, opn, opf)
            if isinstance(cur, SArr) and cur.view is not None and r is cur:
                return     # already written through the view
            self.setitem(o, k, r)

    def aug(self, cur, v, opn, opf):
        if isinstance(cur, SArr):
            return native(cur.inplace, v, opn)
        if isinstance(cur, np.ndarray) and deep_symbolic(v):
            # concrete array becomes symbolic: numpy would update in place
            raise Unsupported("in-place update of a concrete array with symbolic data")
        if isinstance(cur, TrackList) and opn == "__add__":
            for x in self.resolve_iter(v):
                cur.append(x)
            return cur
        if isinstance(cur, (np.ndarray, list, set, dict)):
            ip = {"__add__": operator.iadd, "__sub__": operator.isub, "__mul__": operator.imul, "__truediv__": operator.itruediv,
                  "__or__": operator.ior, "__and__": operator.iand}.get(opn)
            if ip is None:
                raise Unsupported("inplace op")
            return native(ip, cur, v)
        return self.binop(opf, cur, v)

    def s_If(self, s, env):
        if self.truth(self.ev(s.test, env)):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    def s_Return(self, s, env):
        raise _Return(self.ev(s.value, env) if s.value is not None else None)

    def s_Raise(self, s, env):
        if s.exc is None:
            cur = getattr(self, "_handling", None)
            if cur is None:
                raise Unsupported("bare raise")
            raise SymRaise(cur)
        e = self.ev(s.exc, env)
        if isinstance(e, type):
            e = e()
        raise SymRaise(e)

    def s_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            raise SymRaise(AssertionError())

    def s_FunctionDef(self, s, env):
        if s.decorator_list:
            raise Unsupported("decorated local function")
        env.locals[s.name] = IFunc(s, env, self, s.name)

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                native(operator.delitem, o, self.ev(t.slice, env))
            else:
                raise Unsupported("del")

    def s_Import(self, s, env):
        import importlib
        for a in s.names:
            m = importlib.import_module(a.name)
            env.locals[a.asname or a.name.split(".")[0]] = m if a.asname else importlib.import_module(a.name.split(".")[0])

    def s_ImportFrom(self, s, env):
        import importlib
        name = s.module or ""
        if s.level:
            pkg = env.globals.get("__package__", "")
            name = "." * s.level + name
            m = importlib.import_module(name, pkg)
        else:
            m = importlib.import_module(name)
        for a in s.names:
            env.locals[a.asname or a.name] = getattr(m, a.name)

    def s_Try(self, s, env):
        try:
            self.block(s.body, env)
        except SymRaise as e:
            for h in s.handlers:
                ht = self.ev(h.type, env) if h.type is not None else BaseException
                if isinstance(e.exc, ht):
                    if h.name:
                        env.locals[h.name] = e.exc
                    old = getattr(self, "_handling", None)
                    self._handling = e.exc
                    try:
                        self.block(h.body, env)
                    finally:
                        self._handling = old
                    break
            else:
                if s.finalbody:
                    self.block(s.finalbody, env)
                raise
        else:
            self.block(s.orelse, env)
        if s.finalbody:
            self.block(s.finalbody, env)

    def s_With(self, s, env):
        raise Unsupported("with statement")

    def s_Break(self, s, env):
        raise _Break()

    def s_Continue(self, s, env):
        raise _Continue()

    def s_While(self, s, env):
        n = 0
        while self.truth(self.ev(s.test, env)):
            n += 1
            if n > 64:
                raise Unsupported("unbounded while loop")
            try:
                self.block(s.body, env)
            except _Break:
                break
            except _Continue:
                continue

    def s_For(self, s, env):
        it = self.ev(s.iter, env)
        it = self.prepare_iter(it)
        from .loops import SymIter, run_for
        if isinstance(it, SymIter):
            if s.orelse:
                raise Unsupported("for-else")
            return run_for(self, s, it, env)
        broke = False
        for v in it:
            self.assign(s.target, v, env)
            try:
                self.block(s.body, env)
            except _Break:
                broke = True
                break
            except _Continue:
                continue
        if not broke:
            self.block(s.orelse, env)

    def prepare_iter(self, it):
        """-> python list (concrete) or SymIter"""
        from .loops import sym_iter
        r = sym_iter(it)
        if r is not None:
            return r
        if isinstance(it, (types.GeneratorType, zip, enumerate, map, filter, reversed)):
            return native(list, it)
        if isinstance(it, dict):
            return list(it)
        if isinstance(it, range) and len(it) > 64:
            from .loops import SymIter
            lo, st = tm.num(it.start), tm.num(it.step)
            return SymIter(tm.num(len(it)), lambda k: wrap(tm.add(lo, tm.mul(st, k)), "int"))
        fi = getattr(type(it), "__iter__", None)
        if isinstance(fi, types.FunctionType) and fn_ast(fi):
            return self.drain(it)
        return native(list, it)

    def drain(self, it):
        """an iterator defined in the repository, run to its end"""
        j = self.call_function(type(it).__iter__, (it,), {})
        nx = getattr(type(j), "__next__", None)
        if not (isinstance(nx, types.FunctionType) and fn_ast(nx)):
            return self.prepare_iter(j) if j is not it else native(list, it)

        def gen():
            for _ in range(64):
                try:
                    v = self.call_function(nx, (j,), {})
                except SymRaise as e:
                    if isinstance(e.exc, StopIteration):
                        return
                    raise
                yield v
            raise Unsupported("iteration without a bound")
        return gen()

    def resolve_iter(self, it):
        r = self.prepare_iter(it)
        from .loops import SymIter
        if isinstance(r, SymIter):
            c = r.concrete()
            if c is None:
                if isinstance(it, (SList, TrackList)):
                    return it
                raise Unsupported("symbolic iterable in native context")
            return c
        return r

    # ------------------------------------------------------------ expressions
    def truth(self, v):
        if isinstance(v, Sym):
            return decide(tm.as_bool(v.t))
        if isinstance(v, SArr):
            return native(bool, v)
        return native(bool, v)

    def load(self, name, env):
        e = env
        while e is not None:
            if name in e.locals:
                v = e.locals[name]
                if isinstance(v, Poison):
                    raise Unsupported(f"variable {name}: {v.why}")
                return v
            if name in e.closure:
                return e.closure[name]
            e = e.parent
        if name in env.globals:
            return env.globals[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise SymRaise(NameError(f"name {name!r} is not defined"))

    def ev(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        return self.load(e.id, env)

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_List(self, e, env):
        return TrackList(self.elts(e.elts, env))

    def e_Set(self, e, env):
        return set(self.elts(e.elts, env))

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.resolve_iter(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, env))
            else:
                d[self.ev(k, env)] = self.ev(v, env)
        return d

    def e_JoinedStr(self, e, env):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
            else:
                try:
                    x = self.ev(v.value, env)
                except Unsupported:
                    out.append("<?>")
                    continue
                if isinstance(x, Sym):
                    out.append(sym_str(x))
                elif deep_symbolic(x):
                    out.append("<sym>")
                else:
                    spec = ""
                    if v.format_spec is not None:
                        spec = self.ev(v.format_spec, env)
                    if v.conversion == 114:
                        x = repr(x)
                    out.append(native(format, x, spec))
        return "".join(out)

    def e_FormattedValue(self, e, env):
        return self.e_JoinedStr(ast.JoinedStr(values=[e]), env)

    def e_Lambda(self, e, env):
        return IFunc(e, env, self, "<lambda>")

    def e_IfExp(self, e, env):
        return self.ev(e.body, env) if self.truth(self.ev(e.test, env)) else self.ev(e.orelse, env)

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for j, x in enumerate(e.values):
            v = self.ev(x, env)
            if j == len(e.values) - 1:
                return v
            if isinstance(v, Sym) and v.kind == "bool":
                b = decide(v.t)
                if isand and not b:
                    return False
                if not isand and b:
                    return True
                continue
            b = self.truth(v)
            if isand and not b:
                return v
            if not isand and b:
                return v
        return v

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            if isinstance(v, Sym):
                return wrap(tm.not_(tm.as_bool(v.t)))
            return not self.truth(v)
        f = {ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[type(e.op)]
        return native(f, v)

    def e_BinOp(self, e, env):
        a = self.ev(e.left, env)
        b = self.ev(e.right, env)
        return self.binop(BINOPS[type(e.op)][1], a, b)

    def binop(self, f, a, b):
        if isinstance(a, str) and f is operator.mod:
            return a
        if isinstance(a, list) and f is operator.mul and isinstance(b, Sym):
            return self.list_repeat(a, b)
        if isinstance(b, list) and f is operator.mul and isinstance(a, Sym):
            return self.list_repeat(b, a)
        if isinstance(a, list) and isinstance(b, list) and f is operator.add:
            return TrackList(list(self.resolve_iter(a)) + list(self.resolve_iter(b)))
        if isinstance(a, list) and f is operator.mul and isinstance(b, int):
            return TrackList(list(a) * b)
        return native(f, a, b)

    def list_repeat(self, lst, n):
        lst = list(lst)
        if len(lst) == 1 and not isinstance(lst[0], (list, dict, SArr)):
            x = lst[0]
            return SList(term(n), lambda k: x)
        raise Unsupported("list repetition")

    def e_Compare(self, e, env):
        left = self.ev(e.left, env)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, env)
            v = self.compare(op, left, right)
            if res is None:
                res = v
            else:
                if isinstance(res, (SArr, np.ndarray)) or isinstance(v, (SArr, np.ndarray)):
                    raise Unsupported("chained array comparison")
                if isinstance(res, Sym) or isinstance(v, Sym):
                    res = wrap(tm.and_(term(res), term(v)))
                else:
                    res = res and v
            if res is False:
                return False
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return a is b
        if isinstance(op, ast.IsNot):
            return a is not b
        if isinstance(op, ast.In):
            return self.contains(a, b)
        if isinstance(op, ast.NotIn):
            r = self.contains(a, b)
            return wrap(tm.not_(r.t)) if isinstance(r, Sym) else not r
        f = CMPOPS[type(op)]
        if isinstance(a, tuple) and isinstance(b, tuple) and (deep_symbolic(a) or deep_symbolic(b)) and f in (operator.eq, operator.ne):
            if len(a) != len(b):
                r = False
            else:
                r = wrap(tm.and_(*[term(self.compare(ast.Eq(), x, y)) for x, y in zip(a, b)]))
            if f is operator.ne:
                return wrap(tm.not_(r.t)) if isinstance(r, Sym) else not r
            return r
        if isinstance(a, np.ndarray) and is_symbolic(b):
            a = to_arr(a)
        return native(f, a, b)

    def contains(self, x, c):
        if isinstance(c, dict) and not is_symbolic(x) and not any(isinstance(y, Sym) for y in c):
            return native(operator.contains, c, x)
        if isinstance(c, SArr):
            t = nterm(x)
            return native(lambda: (c == wrap(t)).any())
        if isinstance(c, (list, tuple, dict)) and (is_symbolic(x) or deep_symbolic(list(c))):
            ts = []
            for y in self.resolve_iter(c):
                r = self.compare(ast.Eq(), x, y)
                if isinstance(r, (SArr, np.ndarray)):
                    raise Unsupported("array membership")
                ts.append(term(r))
            return wrap(tm.or_(*ts))
        if hasattr(c, "sym_contains"):
            return native(c.sym_contains, x)
        return native(operator.contains, c, x)

    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            cls = env.closure.get("__class__")
            ee = env
            while cls is None and ee.parent is not None:
                ee = ee.parent
                cls = ee.closure.get("__class__")
            first = next(iter(ee.locals.values()))
            return super(cls, first)
        f = self.ev(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.resolve_iter(self.ev(a.value, env)))
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.ev(k.value, env))
            else:
                kw[k.arg] = self.ev(k.value, env)
        return self.call(f, tuple(args), kw)

    def e_Attribute(self, e, env):
        o = self.ev(e.value, env)
        return self.getattr(o, e.attr)

    def getattr(self, o, name):
        if isinstance(o, types.ModuleType):
            try:
                return getattr(o, name)
            except AttributeError as ex:
                raise SymRaise(ex)
        if not isinstance(o, type):
            for c in type(o).__mro__:
                if name in c.__dict__:
                    d = c.__dict__[name]
                    if isinstance(d, property) and isinstance(d.fget, types.FunctionType) and fn_ast(d.fget):
                        return self.call_function(d.fget, (o,), {})
                    break
        return native(getattr, o, name)

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        k = self.ev(e.slice, env)
        return self.subscript(o, k)

    def subscript(self, o, k):
        s = SHIM.get(id(o))
        if s is not None and hasattr(s, "getitem"):
            return native(s.getitem, k)
        if isinstance(o, np.ndarray) and deep_symbolic(k):
            return native(operator.getitem, to_arr(o), k)
        if isinstance(o, (list, tuple)) and isinstance(k, Sym) and not isinstance(o, TrackList):
            return pick(list(o), k)
        if isinstance(o, dict):
            if getattr(o, "default_factory", None) is not None:
                k = self.dict_key(o, k, True)
                if k not in o:
                    o[k] = self.call(o.default_factory, (), {})
                return o[k]
            k = self.dict_key(o, k, False)
        return native(operator.getitem, o, k)

    def e_Slice(self, e, env):
        g = lambda x: None if x is None else self.ev(x, env)
        return slice(g(e.lower), g(e.upper), g(e.step))

    def e_ListComp(self, e, env):
        return self.comp(e, env, lambda c: self.ev(e.elt, c))

    def e_GeneratorExp(self, e, env):
        return self.comp(e, env, lambda c: self.ev(e.elt, c))

    def e_SetComp(self, e, env):
        r = self.comp(e, env, lambda c: self.ev(e.elt, c))
        return set(r)

    def e_DictComp(self, e, env):
        r = self.comp(e, env, lambda c: (self.ev(e.key, c), self.ev(e.value, c)))
        if isinstance(r, SList):
            raise Unsupported("symbolic dict comprehension")
        return dict(r)

    def comp(self, e, env, f):
        out = TrackList()
        from .loops import SymIter, sym_comp

        def go(gens, c):
            if not gens:
                out.append(f(c))
                return
            g = gens[0]
            it = self.prepare_iter(self.ev(g.iter, c))
            if isinstance(it, SymIter):
                con = it.concrete()
                if con is None:
                    raise _SymComp(it)
                it = con
            for v in it:
                self.assign(g.target, v, c)
                if all(self.truth(self.ev(i, c)) for i in g.ifs):
                    go(gens[1:], c)
        c = Env(env.globals, env, env.cls, env.fname)
        try:
            go(e.generators, c)
        except _SymComp as sc:
            if len(e.generators) != 1:
                from .loops import nested_comp
                return nested_comp(self, e.generators, Env(env.globals, env, env.cls, env.fname), f)
            return sym_comp(self, e.generators[0], sc.it, Env(env.globals, env, env.cls, env.fname), f)
        return out

    def e_Starred(self, e, env):
        raise Unsupported("starred expression")

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v


class _SymComp(Exception):
    def __init__(self, it):
        self.it = it
