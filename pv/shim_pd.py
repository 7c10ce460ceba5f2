"""Assumed contracts: the few pandas operations obp's evaluation classes use."""
from __future__ import annotations
import numpy as np
import pandas as pd
from . import terms as tm
from .values import Sym, SArr, Axis, Unsupported, SymRaise, decide, term, to_arr
from .interp import shim, deep_symbolic


class SSeries:
    _symbolic_ = True

    def __init__(self, data, name=None):
        self.data = dict(data)
        self.name = name

    def _bin(self, o, f):
        if isinstance(o, SSeries):
            if list(o.data) != list(self.data):
                raise Unsupported("series alignment")
            return SSeries({k: f(v, o.data[k]) for k, v in self.data.items()})
        return SSeries({k: f(v, o) for k, v in self.data.items()})

    def __truediv__(self, o): return self._bin(o, lambda a, b: a / b)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def to_dict(self): return dict(self.data)


class SFrame:
    """small frame: rows and columns with known labels, symbolic cells"""
    _symbolic_ = True
    _settable_ = True

    def __init__(self, index, cols):
        self.index, self.cols = list(index), {c: list(v) for c, v in cols.items()}

    @property
    def T(self):
        return SFrame(list(self.cols), {r: [self.cols[c][j] for c in self.cols] for j, r in enumerate(self.index)})

    def transpose(self): return self.T

    def __getitem__(self, c):
        if c not in self.cols:
            raise SymRaise(KeyError(c))
        return SSeries(zip(self.index, self.cols[c]), c)

    def __getattr__(self, c):
        if c.startswith("_") or c not in self.__dict__.get("cols", {}):
            raise AttributeError(c)
        return self[c]

    def __setitem__(self, c, v):
        if isinstance(v, SSeries):
            if list(v.data) != self.index:
                raise Unsupported("series alignment")
            self.cols[c] = list(v.data.values())
        elif isinstance(v, (list, SArr, np.ndarray)):
            raise Unsupported("column assignment")
        else:
            self.cols[c] = [v] * len(self.index)

    def to_dict(self):
        return {c: dict(zip(self.index, v)) for c, v in self.cols.items()}


@shim(pd.DataFrame)
def frame(data=None, index=None, columns=None, **kw):
    if data is None and index is None and columns is None and not kw:
        return RowFrame()
    if isinstance(data, dict) and data and all(isinstance(v, SArr) for v in data.values()) and index is None and columns is None and not kw:
        fr = RowFrame()
        for c, v in data.items():
            fr[c] = v
        return fr
    if columns is not None or kw or not isinstance(data, dict):
        raise Unsupported("DataFrame constructor")
    if all(isinstance(v, dict) for v in data.values()) and index is None and data:
        rows = []
        for v in data.values():
            rows += [r for r in v if r not in rows]
        if any(set(v) != set(rows) for v in data.values()):
            raise Unsupported("ragged frame")
        return SFrame(rows, {c: [v[r] for r in rows] for c, v in data.items()})
    if index is not None and not any(isinstance(v, (dict, list, SArr, np.ndarray)) for v in data.values()):
        return SFrame(list(index), {c: [v] * len(index) for c, v in data.items()})
    raise Unsupported("DataFrame constructor")


# ---- frames whose rows are the records of symbolic arrays
def _at(col, i):
    return tm.as_num(col(i))


class RowSeries:
    """a column; `perm` identifies an unspecified common reordering of the rows (cells are written in original order)"""
    _symbolic_ = True

    def __init__(self, arr, perm=None, frame=None):
        self.arr, self.perm, self.frame = arr, perm, frame

    def _o(self, o):
        if isinstance(o, RowSeries):
            if o.perm is not self.perm:
                raise Unsupported("differently ordered rows")
            return o.arr
        if isinstance(o, SArr) and self.perm is not None:
            raise Unsupported("differently ordered rows")
        return o

    def _bin(self, o, f):
        return RowSeries(f(self.arr, self._o(o)), self.perm)

    def __lt__(self, o): return self._bin(o, lambda a, b: a < b)
    def __le__(self, o): return self._bin(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._bin(o, lambda a, b: a > b)
    def __ge__(self, o): return self._bin(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._bin(o, lambda a, b: a == b)
    def __ne__(self, o): return self._bin(o, lambda a, b: a != b)
    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __truediv__(self, o): return self._bin(o, lambda a, b: a / b)
    def __invert__(self): return RowSeries(~self.arr, self.perm)
    def sum(self): return self.arr.sum()
    def any(self): return self.arr.any()
    def all(self): return self.arr.all()
    def max(self): return self.arr.max()
    def min(self): return self.arr.min()
    def mean(self): return self.arr.mean()

    @property
    def values(self):
        return self if self.perm is not None else self.arr

    def to_numpy(self): return self.values

    def unique(self):
        if self.perm is not None:
            raise Unsupported("unique of a reordered column")
        from .shim_np import np_unique
        raise Unsupported("Series.unique (order of appearance)")

    def nunique(self):
        from .shim_np import np_unique
        return np_unique(self.arr).shape[0]

    @property
    def shape(self): return self.arr.shape


class AnyCount:
    """number of rows/groups with a property of which only existence is modelled"""
    _symbolic_ = True

    def __init__(self, ex):
        self.ex = ex

    def _c(self, op, o):
        if o == 0 and op in (">", "!="):
            return Sym(self.ex, "bool")
        if o == 0 and op in ("==", "<="):
            return Sym(tm.not_(self.ex), "bool")
        if o == 1 and op == ">=":
            return Sym(self.ex, "bool")
        if o == 1 and op == "<":
            return Sym(tm.not_(self.ex), "bool")
        raise Unsupported("count of rows")

    def __gt__(self, o): return self._c(">", o)
    def __ge__(self, o): return self._c(">=", o)
    def __lt__(self, o): return self._c("<", o)
    def __le__(self, o): return self._c("<=", o)
    def __eq__(self, o): return self._c("==", o)
    def __ne__(self, o): return self._c("!=", o)
    def __bool__(self): return bool(self._c(">", 0))


class ExSeries:
    """boolean flags per row or group, only quantified over"""
    _symbolic_ = True

    def __init__(self, n, cond):
        self.n, self.cond = n, cond

    def sum(self): return AnyCount(self.any().t)
    def any(self): return Sym(tm.Exists(self.n, self.cond), "bool")
    def all(self): return Sym(tm.Forall(self.n, self.cond), "bool")
    def __invert__(self): return ExSeries(self.n, lambda i: tm.not_(self.cond(i)))


class NUnique:
    """number of distinct values of a column within the group of row i (the group is not empty)"""
    _symbolic_ = True

    def __init__(self, frame, key, col, i):
        self.frame, self.key, self.col, self.i = frame, key, col, i

    def two(self):
        fr, i = self.frame, self.i
        k, c = fr.col(self.key), fr.col(self.col)
        return tm.Exists(fr.n, lambda j: tm.and_(tm.eq(k(j), k(i)), tm.ne(c(j), c(i))))

    def _c(self, op, o):
        if o == 1 and op in (">", "!="):
            return Sym(self.two(), "bool")
        if o == 1 and op in ("==", "<="):
            return Sym(tm.not_(self.two()), "bool")
        if o == 2 and op == ">=":
            return Sym(self.two(), "bool")
        raise Unsupported("number of distinct values")

    def __gt__(self, o): return self._c(">", o)
    def __ge__(self, o): return self._c(">=", o)
    def __lt__(self, o): return self._c("<", o)
    def __le__(self, o): return self._c("<=", o)
    def __eq__(self, o): return self._c("==", o)
    def __ne__(self, o): return self._c("!=", o)


class _Shape:
    _symbolic_ = True

    def __init__(self, nu): self.nu = nu

    def __getitem__(self, k):
        if k != 0:
            raise Unsupported("shape of unique values")
        return self.nu

    @property
    def shape(self): return self

    @property
    def size(self): return self.nu


class GroupCol:
    _symbolic_ = True

    def __init__(self, frame, key, col, i):
        self.a = (frame, key, col, i)

    def unique(self): return _Shape(NUnique(*self.a))
    def nunique(self): return NUnique(*self.a)


class GroupRows:
    """the rows of the group that row i belongs to"""
    _symbolic_ = True

    def __init__(self, frame, key, i):
        self.frame, self.key, self.i = frame, key, i

    def __getitem__(self, c):
        return GroupCol(self.frame, self.key, c, self.i)


class GroupSeries:
    """one value per group, given at a representative row of the group"""
    _symbolic_ = True

    def __init__(self, n, cell):
        self.n, self.cell = n, cell

    def _m(self, f):
        def cond(i):
            r = f(self.cell(i))
            if not isinstance(r, Sym) or r.kind != "bool":
                raise Unsupported("group predicate")
            return r.t
        return ExSeries(self.n, cond)

    def __gt__(self, o): return self._m(lambda v: v > o)
    def __ge__(self, o): return self._m(lambda v: v >= o)
    def __lt__(self, o): return self._m(lambda v: v < o)
    def __le__(self, o): return self._m(lambda v: v <= o)
    def __eq__(self, o): return self._m(lambda v: v == o)
    def __ne__(self, o): return self._m(lambda v: v != o)


class Expanding:
    _symbolic_ = True

    def __init__(self, sel): self.sel = sel

    def min(self): return self.sel.running("min")
    def max(self): return self.sel.running("max")
    def sum(self): return self.sel.running("sum")


class GroupSel:
    _symbolic_ = True

    def __init__(self, frame, key, col):
        self.frame, self.key, self.colname = frame, key, col

    def nunique(self): return GroupSeries(self.frame.n, lambda i: NUnique(self.frame, self.key, self.colname, i))
    def expanding(self): return Expanding(self)
    def cummin(self): return self.running("min")
    def cummax(self): return self.running("max")

    def running(self, op):
        """over the rows of the same group that come no later in the row order; result in group-major order"""
        fr = self.frame
        k, c = fr.col(self.key), fr.col(self.colname)
        if fr.order is None or fr.order[0] != self.key:
            raise Unsupported("running aggregate of unsorted groups")
        keys = [fr.col(x) for x in fr.order[1:]]

        def before(j, i):
            r = tm.le(j, i)
            for q in reversed(keys):
                r = tm.or_(tm.lt(q(j), q(i)), tm.and_(tm.eq(q(j), q(i)), r))
            return tm.and_(tm.eq(k(j), k(i)), r)

        def cell(i):
            # row i itself always belongs to the range, so masked-out rows can carry its value
            if op == "sum":
                return tm.Sum(fr.n, lambda j: tm.ite(before(j, i), c(j), tm.ZERO))
            return (tm.Min if op == "min" else tm.Max)(fr.n, lambda j: tm.ite(before(j, i), c(j), c(i)))
        return RowSeries(SArr((fr.n,), cell), fr.perm)


class GroupBy:
    _symbolic_ = True

    def __init__(self, frame, key):
        self.frame, self.key = frame, key

    def __getitem__(self, c):
        if isinstance(c, list):
            raise Unsupported("group columns")
        return GroupSel(self.frame, self.key, c)

    def apply(self, f):
        fr, key = self.frame, self.key
        return GroupSeries(fr.n, lambda i: f(GroupRows(fr, key, i)))


class RowFrame:
    _symbolic_ = True
    _settable_ = True

    def __init__(self, cols=None, perm=None, order=None):
        self.cols, self.perm, self.order = dict(cols or {}), perm, order

    @property
    def n(self):
        return next(iter(self.cols.values())).axes[0].n

    def col(self, c):
        if c not in self.cols:
            raise SymRaise(KeyError(c))
        a = self.cols[c]
        return lambda i: tm.as_num(a.at(i))

    def __setitem__(self, c, v):
        if isinstance(v, RowSeries):
            if v.perm is not self.perm:
                raise Unsupported("column of a reordered frame")
            v = v.arr
        elif self.perm is not None:
            raise Unsupported("column of a reordered frame")
        v = to_arr(v)
        if v.ndim != 1 or v.axes[0].guard is not None:
            raise Unsupported("column shape")
        if self.cols and not decide(tm.eq(v.axes[0].n, self.n)):
            raise SymRaise(ValueError("Length of values does not match length of index"))
        self.cols[c] = v.copy()

    def __getitem__(self, c):
        if isinstance(c, list):
            return RowFrame({x: self.cols[x] for x in c}, self.perm, self.order)
        if not isinstance(c, str):
            raise Unsupported("frame row selection")
        self.col(c)
        return RowSeries(self.cols[c], self.perm, self)

    def copy(self, deep=True): return RowFrame(self.cols, self.perm, self.order)

    def sort_values(self, by, ascending=True, **kw):
        by = [by] if isinstance(by, str) else list(by)
        if ascending is not True or kw or self.perm is not None:
            raise Unsupported("sort_values")
        for b in by:
            self.col(b)
        return RowFrame(self.cols, object(), by)

    def reset_index(self, drop=False):
        if not drop:
            raise Unsupported("reset_index without drop")
        return RowFrame(self.cols, self.perm, self.order)

    def duplicated(self, subset=None, keep="first"):
        keys = [self.col(c) for c in ([subset] if isinstance(subset, str) else subset if subset is not None else self.cols)]
        same = lambda i, j: tm.and_(*[tm.eq(k(i), k(j)) for k in keys])
        # as a set of rows: those with an earlier twin; only existence is modelled
        return ExSeries(self.n, lambda i: tm.Exists(self.n, lambda j: tm.and_(tm.ne(i, j), same(i, j))))

    def groupby(self, by, **kw):
        if not isinstance(by, str) or kw:
            raise Unsupported("groupby")
        self.col(by)
        return GroupBy(self, by)


# ------------------------------------------------------------- tables read from files
# file name -> (number of rows, {column: (entry function, kind, is text)}); the unit under check declares them.
# Text is modelled by integers in the same order.
TABLES = {}


class StrNames:
    _symbolic_ = True

    def __init__(self, names): self.names = names
    def contains(self, pat, regex=True): return np.array([pat in c for c in self.names])
    def startswith(self, pat): return np.array([c.startswith(pat) for c in self.names])


class Names(list):
    _symbolic_ = True

    @property
    def str(self): return StrNames(list(self))

    @property
    def values(self): return list(self)


class TCol:
    _symbolic_ = True

    def __init__(self, name, arr, text):
        self.name, self.arr, self.text = name, arr, text

    @property
    def values(self): return self.arr
    def to_numpy(self): return self.arr.copy()
    def to_frame(self): return Table(self.arr.axes[0].n, {self.name: (self.arr, self.text)})

    @property
    def shape(self): return self.arr.shape


class _TLoc:
    _symbolic_ = True

    def __init__(self, t): self.t = t

    def __getitem__(self, key):
        if not (isinstance(key, tuple) and len(key) == 2 and key[0] == slice(None)):
            raise Unsupported("row selection of a table")
        m = key[1]
        if isinstance(m, str):
            return self.t[m]
        m = list(m)
        if all(isinstance(x, (bool, np.bool_)) for x in m):
            m = [c for c, k in zip(self.t.cols, m) if k]
        return self.t[m]


class Table:
    _symbolic_ = True

    def __init__(self, n, cols):
        self.n, self.cols = n, dict(cols)

    @property
    def columns(self): return Names(self.cols)

    @property
    def shape(self): return (Sym(self.n, "int"), len(self.cols))
    def __len__(self): raise Unsupported("len of a table")

    @property
    def loc(self): return _TLoc(self)

    def __getitem__(self, c):
        if isinstance(c, list):
            for x in c:
                if x not in self.cols:
                    raise SymRaise(KeyError(x))
            return Table(self.n, {x: self.cols[x] for x in c})
        if c not in self.cols:
            raise SymRaise(KeyError(c))
        return TCol(c, *self.cols[c])

    def copy(self, deep=True): return Table(self.n, {k: (a.copy(), t) for k, (a, t) in self.cols.items()})

    def sort_values(self, by, inplace=False, ascending=True, **kw):
        if isinstance(by, list) and len(by) == 1:
            by = by[0]
        kw.pop("kind", None)
        if not isinstance(by, str) or ascending is not True or any(v for v in kw.values()):
            raise Unsupported("sort_values")
        from . import shim_np
        order = shim_np.np_argsort(self[by].arr)
        out = {k: (a[order], t) for k, (a, t) in self.cols.items()}
        if inplace:
            self.cols = out
            return None
        return Table(self.n, out)

    def reset_index(self, drop=False, inplace=False):
        if not drop:
            raise Unsupported("reset_index without drop")
        return None if inplace else Table(self.n, self.cols)

    def drop(self, labels=None, columns=None, axis=0):
        cs = columns if columns is not None else labels if axis == 1 else None
        if cs is None:
            raise Unsupported("drop of rows")
        cs = [cs] if isinstance(cs, str) else list(cs)
        for c in cs:
            if c not in self.cols:
                raise SymRaise(KeyError(c))
        return Table(self.n, {k: v for k, v in self.cols.items() if k not in cs})

    def apply(self, f, axis=0):
        if axis != 0:
            raise Unsupported("apply over rows")
        from .interp import SHIM
        fn = getattr(f, "__func__", None)
        out = {}
        for k in self.cols:
            v = SHIM[id(fn)](f.__self__, self[k]) if fn is not None and id(fn) in SHIM else f(self[k])
            if isinstance(v, TCol):
                v = v.arr
            out[k] = (to_arr(v), False)
        return Table(self.n, out)

    @property
    def values(self):
        if any(t for a, t in self.cols.values()):
            raise Unsupported("text in an array")
        from . import shim_np
        cs = []
        for a, t in self.cols.values():
            cs.append(a if a.ndim == 2 else a[:, None])
        return shim_np.np_concat(cs, axis=1)

    def to_numpy(self): return self.values


@shim(pd.read_csv)
def read_csv(path, index_col=None, **kw):
    import os
    name = os.path.basename(str(path))
    if index_col != 0 or kw:
        raise Unsupported("read_csv options")
    if name not in TABLES:
        raise SymRaise(FileNotFoundError(str(path)))
    n, cols = TABLES[name]
    return Table(n, {k: (SArr((n,), f, kind), text) for k, (f, kind, text) in cols.items()})


def _codes(a):
    from . import shim_np
    n = a.axes[0].n
    f = a.snapshot()
    lam = tm.bind("lam", n, lambda k: tm.as_num(f(k)))
    return lam, shim_np.dense_rank(lam, n)


@shim(pd.get_dummies)
def get_dummies(t, drop_first=False, columns=None, **kw):
    if not isinstance(t, Table) or kw or columns is not None:
        raise Unsupported("get_dummies options")
    from . import norm as nm
    out = {k: v for k, v in t.cols.items() if not v[1]}
    for k, (a, text) in t.cols.items():
        if text:
            lam, r = _codes(a)
            u = tm.app("nunique", nm.norm(lam), sort="I")
            s = tm.ONE if drop_first else tm.ZERO
            out[k + "_*"] = (SArr((t.n, tm.sub(u, s)), lambda i, j, r=r, s=s: tm.iv(tm.eq(r(i), tm.add(j, s))), "int"), False)
    return Table(t.n, out)


@shim(pd.concat)
def pd_concat(objs, axis=0, **kw):
    objs = list(objs)
    if axis not in (1, "columns") or kw or not all(isinstance(o, Table) for o in objs):
        raise Unsupported("concat")
    cols = {}
    for o in objs:
        cols.update(o.cols)
    return Table(objs[0].n, cols)


import sklearn.preprocessing as _skp


@shim(_skp.LabelEncoder.fit_transform)
def label_encode(self, y):
    a = y.arr if isinstance(y, TCol) else to_arr(y)
    return SArr(a.axes, _codes(a)[1], "int")
