COMMON = [
    "floating-point arithmetic is treated as exact real arithmetic (rounding, overflow, nan and inf are outside the contracts)",
    "division is total with 1/0=0 in the logic; where a denominator can be zero the contract restricts the inputs or states the obligation explicitly",
    "numpy, scipy, scikit-learn and pandas functions obey the contracts written in pv/shim_np.py and pv/shim_misc.py (assumed, cross-checked by replaying the real functions on every run)",
    "pseudo-random draws are uninterpreted functions of (seed, draw counter, distribution parameters, index) with the range facts of the distribution",
    "CPython executes the AST that the interpreter reads from /repo (decorators other than dataclass/property/staticmethod/classmethod are rejected)",
]
TRUSTED = [
    "pv/ (symbolic interpreter, normal form, instantiation)", "z3 (python bindings in /opt/veriftools/pyvenv)", "CPython ast module",
]
