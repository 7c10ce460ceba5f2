"""Assumed contracts: scikit-learn models and splitters.

A fitted model is an uninterpreted function of (which model, training rows, targets, sample weights);
a prediction is an uninterpreted function of (fitted model, feature row).  Nothing else is assumed.
The run of the real code uses small deterministic stand-in models with the same interface.
"""
from __future__ import annotations
import numpy as np
import sklearn.base
import sklearn.calibration
import sklearn.model_selection
import sklearn.preprocessing
import sklearn.utils
from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin
from . import terms as tm
from .terms import T, ZERO, ONE, TRUE, FALSE
from .values import (Sym, SArr, SList, Axis, Unsupported, SymRaise, EngineHook, wrap, term, nterm, to_arr, decide, is_symbolic)
from . import values as V
from . import norm as nm
from .interp import shim, SHIM, TrackList, deep_symbolic
from . import shim_misc


def declare():
    nm.DECL["sk_cls"] = dict(lo=0, hiT=lambda st, row, n: n)
    nm.DECL["sk_proba"] = dict(lo=0, hi=1)
    nm.DECL["kfold"] = dict(lo=0, hiT=lambda seed, k, n, i: k)
    nm.DECL["onehot_dim"] = dict(lo=0)
    nm.DECL["denserank"] = dict(lo=0, hiT=lambda lam, i: tm.app("nunique", lam, sort="I"))
    nm.DECL["split_n"] = dict(lo=1, hiT=lambda z, n: n)
    nm.DECL["split_tr"] = dict(lo=0, hiT=lambda s, z, n, i: n)
    nm.DECL["split_ev"] = dict(lo=0, hiT=lambda s, z, n, i: n)
    nm.DECL["poly_dim"] = dict(lo=1)
    nm.DECL["onehot"] = dict(lo=0, hi=1)


VOID = tm.app("sk_void")


def arr_term(a):
    """an array as a first-class value: nested lambda over its index, masked-out rows void"""
    a = to_arr(a)
    ks = [tm.fresh("z", "I", (ZERO, x.n)) for x in a.axes]
    b = tm.as_num(a.at(*ks))
    g = [x.guard(k) for x, k in zip(a.axes, ks) if x.guard is not None]
    if g:
        b = tm.ite(tm.and_(*g), b, VOID)
    for k, x in reversed(list(zip(ks, a.axes))):
        b = tm.bind_var("lam", x.n, k, b)
    return b


def row_term(a, i):
    k = tm.fresh("z", "I", (ZERO, a.axes[1].n))
    return tm.bind_var("lam", a.axes[1].n, k, tm.as_num(a.at(i, k)))


class SModel:
    _symbolic_ = True

    def __init__(self, ident, kind, ncls=None, fitted=None):
        self.ident, self.kind, self.ncls, self.state = ident, kind, ncls, fitted
        self.nfit = None

    # -- python-level behaviour
    def sym_isinstance(self, c):
        return c in (BaseEstimator, object) or (c is ClassifierMixin and self.kind == "clf") or (c is RegressorMixin and self.kind == "reg")

    def sym_clone(self):
        m = SModel(self.ident, self.kind, self.ncls, self.state)
        m.nfit = self.nfit
        return m

    def materialize(self, rt):
        new_mock(self.ident, self.kind)
        nc = None if self.ncls is None else int(tm.ev(self.ncls, rt.env))
        _NCLS[self.ident] = nc
        return mock_of(self.ident)(nc)

    # -- model interface
    def fit(self, X, y, sample_weight=None):
        X, y = to_arr(X), to_arr(y)
        if X.ndim != 2 or y.ndim != 1:
            raise SymRaise(ValueError("bad training data shape"))
        rows_given(X)
        same_rows(X, y)
        args = [tm.num(self.ident), arr_term(X), arr_term(y)]
        if sample_weight is not None:
            w = to_arr(sample_weight)
            same_rows(X, w)
            args.append(arr_term(w))
        self.state = tm.app("sk_fit" if sample_weight is None else "sk_fitw", *args)
        self.nfit = self.ncls if self.ncls is not None else classes_of(y)
        return self

    def _need(self):
        if self.state is None:
            from sklearn.exceptions import NotFittedError
            raise SymRaise(NotFittedError("this model is not fitted yet"))
        return self.state

    def predict(self, X):
        X, st = to_arr(X).copy(), self._need()
        rows_given(X)
        if self.kind == "clf":
            return SArr((X.axes[0],), lambda i: tm.app("sk_cls", st, row_term(X, i), self.nfit, sort="I"), "int")
        return SArr((X.axes[0],), lambda i: tm.app("sk_pred", st, row_term(X, i)))

    def predict_proba(self, X):
        if self.kind != "clf":
            raise SymRaise(AttributeError("predict_proba"))
        X, st = to_arr(X).copy(), self._need()
        rows_given(X)
        return SArr((X.axes[0], self.nfit), lambda i, c: tm.app("sk_proba", st, row_term(X, i), c))


def rows_given(X):
    """scikit-learn models predict for a non-empty matrix"""
    if X.ndim != 2:
        raise SymRaise(ValueError("Expected 2D array"))
    if not decide(X.axes[0].some()):
        raise SymRaise(ValueError("Found array with 0 sample(s) while a minimum of 1 is required"))


def classes_of(y):
    a = to_arr(y)
    if a.axes[0].guard is None:
        from .shim_np import np_unique
        return np_unique(a).axes[0].n
    return tm.app("sk_ncls", arr_term(a), sort="I")


def same_rows(X, y):
    a, b = X.axes[0], y.axes[0]
    if a.guard is None and b.guard is None:
        if not decide(tm.eq(a.n, b.n)):
            raise SymRaise(ValueError("Found input variables with inconsistent numbers of samples"))
        return
    if not V.same_axis(a, b):
        raise Unsupported("training rows and targets selected differently")


# ---- concrete stand-ins
class Mock(BaseEstimator):
    ident = 0

    def __init__(self, ncls=None):
        self.ncls = ncls

    def _s(self, X, y, w):
        X, y = np.asarray(X, float), np.asarray(y, float)
        if X.ndim != 2 or y.shape != (X.shape[0],):
            raise ValueError("bad training data shape")
        if len(X) == 0:
            raise ValueError("Found array with 0 sample(s) while a minimum of 1 is required")
        w = np.ones(len(y)) if w is None else np.asarray(w, float)
        if w.shape != y.shape:
            raise ValueError("bad sample_weight shape")
        f = np.sin(1.3 * X @ np.cos(np.arange(X.shape[1]) + 1.0) + 2.1 * y + 0.4 * self.ident)
        return float(np.sum(w * (f + 0.5)) / (1.0 + 0.1 * len(y)))

    def fit(self, X, y, sample_weight=None):
        self.s_ = self._s(X, y, sample_weight)
        self.classes_ = np.unique(y)
        self.nc_ = self.ncls if self.ncls is not None else len(self.classes_)
        return self

    def _z(self, X):
        if not hasattr(self, "s_"):
            from sklearn.exceptions import NotFittedError
            raise NotFittedError("not fitted")
        X = np.asarray(X, float)
        if X.ndim != 2:
            raise ValueError("Expected 2D array")
        if len(X) == 0:
            raise ValueError("Found array with 0 sample(s) while a minimum of 1 is required")
        return self.s_ + X @ np.sin(np.arange(X.shape[1]) + 1.0)


class MockReg(RegressorMixin, Mock):
    def predict(self, X):
        return np.tanh(self._z(X)) + 0.1 * self._z(X)


class MockClf(ClassifierMixin, Mock):
    def predict_proba(self, X):
        z = self._z(X)
        e = np.exp(np.sin(z[:, None] * 0.7 + np.arange(self.nc_)[None, :]))
        return e / e.sum(1, keepdims=True)

    def predict(self, X):
        return self.predict_proba(X).argmax(1)


_MOCKS = {}
_NCLS = {}


def new_mock(ident, kind):
    base = MockClf if kind == "clf" else MockReg
    name = f"{base.__name__}{ident}"
    if name not in globals():
        globals()[name] = type(name, (base,), {"ident": ident, "__module__": __name__})
    _MOCKS[ident] = globals()[name]
    return _MOCKS[ident]


def mock_of(ident):
    return _MOCKS[ident]


def rows_of(t):
    return [r for r in t if r is not None and not (isinstance(r, tuple) and (len(r) == 0 or r[0] is None))]


def _fit(ident, X, y, w=None):
    if int(ident) >= 1000:
        from sklearn.calibration import CalibratedClassifierCV
        X, y = rows_of(X), rows_of(y)
        b = _MOCKS[int(ident) % 1000](_NCLS.get(int(ident) % 1000))
        return CalibratedClassifierCV(b, cv=int(ident) // 1000).fit(np.array(X, float).reshape(len(y), -1), np.array(y))
    m = _MOCKS[int(ident)](_NCLS.get(int(ident)))
    X, y = rows_of(X), rows_of(y)
    return m.fit(np.array(X, float).reshape(len(y), -1), np.array(y), None if w is None else np.array(rows_of(w), float))


def _onehot(E, i, j):
    A = np.array(rows_of(E), dtype=int)
    return float(sklearn.preprocessing.OneHotEncoder(sparse_output=False, drop="first").fit_transform(A)[int(i), int(j)])


def _onehot_dim(E):
    return int(sklearn.preprocessing.OneHotEncoder(sparse_output=False, drop="first").fit_transform(np.array(rows_of(E), dtype=int)).shape[1])


def _kfold(seed, k, n, i):
    kf = sklearn.model_selection.KFold(n_splits=int(k), shuffle=True, random_state=int(seed))
    for f, (_, te) in enumerate(kf.split(np.zeros((int(n), 1)))):
        if int(i) in te:
            return f


def _proba(m, row, c):
    return float(m.predict_proba(np.array([row], float))[0, int(c)])


def _cls(m, row, n):
    m.nc_ = int(n)
    return int(m.predict(np.array([row], float))[0])


tm._BUILTIN.update({
    "sk_void": lambda: None, "sk_fit": _fit, "sk_fitw": _fit,
    "sk_pred": lambda m, row: float(m.predict(np.array([row], float))[0]),
    "sk_proba": _proba, "sk_cls": _cls, "sk_ncls": lambda y: len(set(rows_of(y))),
    "onehot": _onehot, "onehot_dim": _onehot_dim, "kfold": _kfold,
})


# ---- functions of scikit-learn
@shim(sklearn.base.is_classifier)
def is_classifier(m):
    if isinstance(m, SModel):
        return m.kind == "clf"
    return sklearn.base.is_classifier(m)


@shim(sklearn.base.clone)
def clone(m, safe=True):
    if isinstance(m, SModel):
        return SModel(m.ident, m.kind, m.ncls)
    if deep_symbolic(m):
        raise Unsupported("clone")
    return sklearn.base.clone(m)


@shim(sklearn.calibration.CalibratedClassifierCV)
def calibrated(estimator=None, *, cv=None, base_estimator="deprecated", **kw):
    """another (uninterpreted) classifier, determined by the base model and the number of calibration folds"""
    m = base_estimator if estimator is None else estimator
    if kw or not isinstance(m, SModel) or not isinstance(cv, int):
        raise Unsupported("CalibratedClassifierCV options")
    return SModel(m.ident + 1000 * cv, m.kind, m.ncls)


class SOneHot:
    _symbolic_ = True

    def __init__(self, drop):
        self.drop = drop

    def fit_transform(self, X):
        a = to_arr(X)
        if a.ndim != 2:
            raise SymRaise(ValueError("Expected 2D array"))
        t = arr_term(a)
        return SArr((a.axes[0], tm.app("onehot_dim", t, sort="I")), lambda i, j: tm.app("onehot", t, i, j))


@shim(sklearn.preprocessing.OneHotEncoder)
def onehot(sparse=None, sparse_output=None, drop=None, **kw):
    if kw or drop != "first" or (sparse is not False and sparse_output is not False):
        raise Unsupported("OneHotEncoder options")
    return SOneHot(drop)


class SKFold:
    _symbolic_ = True

    def __init__(self, k, seed):
        self.k, self.seed = k, seed

    def get_n_splits(self, X=None, y=None, groups=None):
        return self.k

    def split(self, X, y=None, groups=None):
        a = to_arr(X)
        ax = a.axes[0]
        if ax.guard is not None:
            raise Unsupported("KFold of a masked array")
        if decide(tm.lt(ax.n, tm.num(self.k))):
            raise SymRaise(ValueError("Cannot have number of splits greater than the number of samples"))
        out = []
        for f in range(self.k):
            fold = lambda i: tm.app("kfold", self.seed, tm.num(self.k), ax.n, i, sort="I")
            te = SArr((Axis(ax.n, lambda i, f=f: tm.eq(fold(i), tm.num(f))),), lambda i: i, "int")
            tr = SArr((Axis(ax.n, lambda i, f=f: tm.ne(fold(i), tm.num(f))),), lambda i: i, "int")
            out.append((tr, te))
            if EngineHook.cur is not None:
                EngineHook.cur.assume(tm.Exists(ax.n, te.axes[0].guard))
                EngineHook.cur.assume(tm.Exists(ax.n, tr.axes[0].guard))
        return TrackList(out)


@shim(sklearn.model_selection.KFold)
def kfold(n_splits=5, *, shuffle=False, random_state=None):
    if not isinstance(n_splits, int) or not shuffle:
        raise Unsupported("KFold options")
    if n_splits < 2:
        raise SymRaise(ValueError("k-fold cross-validation requires at least one train/test split"))
    r = shim_misc.check_random_state(random_state)
    return SKFold(n_splits, r.seed)


class SPoly:
    """PolynomialFeatures(degree): feature j of a row is an uninterpreted function of (degree, row, j)"""
    _symbolic_ = True

    def __init__(self, degree):
        self.degree = degree

    def fit_transform(self, X, y=None):
        X = to_arr(X).copy()
        if X.ndim != 2:
            raise SymRaise(ValueError("Expected 2D array"))
        g = nterm(self.degree)
        return SArr((X.axes[0], tm.app("poly_dim", g, X.axes[1].n, sort="I")), lambda i, j: tm.app("poly", g, row_term(X, i), j))

    transform = fit_transform


@shim(sklearn.preprocessing.PolynomialFeatures)
def poly_features(degree=2, **kw):
    if kw:
        raise Unsupported("PolynomialFeatures options")
    return SPoly(degree)


@shim(sklearn.utils.check_X_y)
def check_X_y(X, y, *, ensure_2d=True, multi_output=False, **kw):
    """shapes only: entries are finite numbers here"""
    if kw or multi_output:
        raise Unsupported("check_X_y options")
    X, y = to_arr(X), to_arr(y)
    if ensure_2d and X.ndim != 2 or y.ndim != 1:
        raise SymRaise(ValueError("Expected 2D array"))
    same_rows(X, y)
    rows_given(X)
    return X, y


@shim(sklearn.model_selection.train_test_split)
def train_test_split(*arrays, test_size=None, train_size=None, random_state=None, shuffle=True, stratify=None):
    """the same rows for every array: an uninterpreted split determined by the seed, the size and the number of rows"""
    if train_size is not None or not shuffle or stratify is not None or not arrays:
        raise Unsupported("train_test_split options")
    arrs = [to_arr(a) for a in arrays]
    n = arrs[0].axes[0].n
    if any(a.axes[0].guard is not None for a in arrs):
        raise Unsupported("split of masked rows")
    for a in arrs[1:]:
        if a.axes[0].n is not n and not decide(tm.eq(a.axes[0].n, n)):
            raise SymRaise(ValueError("Found input variables with inconsistent numbers of samples"))
    s, z = shim_misc.check_random_state(random_state).seed, nterm(0.25 if test_size is None else test_size)
    ne = tm.app("split_n", z, n, sort="I")
    out = []
    for a in arrs:
        f = a.snapshot()
        for name, m in (("split_tr", tm.sub(n, ne)), ("split_ev", ne)):
            out.append(SArr((m,) + tuple(a.axes[1:]), (lambda f, name: lambda i, *r: f(tm.app(name, s, z, n, i, sort="I"), *r))(f, name), a.kind))
    if EngineHook.cur is not None:
        EngineHook.cur.assume(tm.and_(tm.le(ONE, ne), tm.lt(ne, n)))
    return TrackList(out)


def _split(which):
    def f(seed, z, n, i):
        z = float(z)
        z = int(z) if z >= 1 else z
        return int(sklearn.model_selection.train_test_split(np.arange(int(n)), test_size=z, random_state=int(seed))[which][int(i)])
    return f


def _split_n(z, n):
    z = float(z)
    return int(z) if z >= 1 else int(np.ceil(z * int(n)))


tm._BUILTIN.update({"split_tr": _split(0), "split_ev": _split(1), "split_n": _split_n})
