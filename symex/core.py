"""
Symbolic execution core: path explorer + symbolic reals on top of z3.

The implementation under test is ordinary numpy/numba Python.  It is executed by the ordinary CPython
interpreter (numba's JIT disabled, so that the very same source text is interpreted), on numpy object
arrays whose elements are `SymReal` terms.  Every comparison on symbolic terms that the implementation
makes forks the execution (depth-first re-execution, infeasible sides pruned by the solver), so that a
completed run yields a path condition and symbolic results for that path, and the set of completed runs
covers every input inside the assumed ranges.
"""
import math
import os
import threading
import time
from fractions import Fraction

import sys

for _p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if _p not in sys.path:
        sys.path.append(_p)

import z3  # noqa: E402

z3.set_param("model.completion", False)


class Unsupported(BaseException):
    """The engine cannot represent an operation (inconclusive, never a verdict)."""


class PathAbort(BaseException):
    """The current path is infeasible or was cut by an assumption."""


class Budget(BaseException):
    """A stated exploration budget was exhausted (inconclusive)."""


CTX = None  # the active context


def ctx():
    if CTX is None:
        raise Unsupported("symbolic value used outside of a symbolic run")
    return CTX


_RV = {}


def rv(x):
    """Exact rational term for a concrete number (decimal reading of floats)."""
    if isinstance(x, bool):
        x = int(x)
    key = x
    try:
        return _RV[key]
    except KeyError:
        pass
    if isinstance(x, int):
        e = z3.RealVal(x)
    elif isinstance(x, Fraction):
        e = z3.Q(x.numerator, x.denominator)
    else:
        f = Fraction(repr(float(x)))
        e = z3.Q(f.numerator, f.denominator)
    e = z3.simplify(e)
    if len(_RV) < 100000:
        _RV[key] = e
    return e


def canon(e, limit=60):
    """Polynomial e as a tuple of (monomial, coefficient rounded to 11 digits), None if it is not a small polynomial."""
    e = z3.simplify(e, som=True)
    out = {}
    terms = list(e.children()) if z3.is_add(e) else [e]
    if len(terms) > limit:
        return None, None
    for t in terms:
        c, mono = 1.0, []
        for f in t.children() if z3.is_mul(t) else [t]:
            if z3.is_rational_value(f):
                q = f.as_fraction()
                c *= q.numerator / q.denominator
            else:
                mono.append(f.get_id())
        k = tuple(sorted(mono))
        out[k] = out.get(k, 0.0) + c
    if not out:
        return None, None
    mx = max(abs(c) for c in out.values())
    return tuple(sorted((k, float(f"{c:.11g}")) for k, c in out.items() if abs(c) > 1e-13 * mx)), e


def frac_of(e):
    return Fraction(e.numerator_as_long(), e.denominator_as_long())


def is_num(x):
    import numpy as np

    return isinstance(x, (int, float, np.integer, np.floating, Fraction, np.bool_))


def to_expr(x):
    if isinstance(x, SymReal):
        return x.e
    return rv(pyfloat(x))


def pyfloat(x):
    import numpy as np

    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    return float(x)


class SymReal:
    """A symbolic real number.  Never NaN/inf (those stay concrete Python floats)."""

    __slots__ = ("e",)
    __array_priority__ = 1000
    __hash__ = None

    def __init__(self, e):
        self.e = e

    # -- helpers ---------------------------------------------------------------------------------
    def __repr__(self):
        s = str(self.e)
        return f"<sym {s if len(s) < 80 else s[:77] + '...'}>"

    def _coerce(self, other):
        import numpy as np

        if isinstance(other, SymReal):
            return other
        if isinstance(other, (int, float, np.integer, np.floating, np.bool_)):
            return other
        if isinstance(other, np.ndarray) and other.ndim == 0:
            return self._coerce(other.item())
        return None

    # -- arithmetic ------------------------------------------------------------------------------
    def __add__(self, o):
        return _arith("add", self, o)

    def __radd__(self, o):
        return _arith("add", o, self)

    def __sub__(self, o):
        return _arith("sub", self, o)

    def __rsub__(self, o):
        return _arith("sub", o, self)

    def __mul__(self, o):
        return _arith("mul", self, o)

    def __rmul__(self, o):
        return _arith("mul", o, self)

    def __truediv__(self, o):
        return _arith("div", self, o)

    def __rtruediv__(self, o):
        return _arith("div", o, self)

    def __pow__(self, o):
        return _arith("pow", self, o)

    def __rpow__(self, o):
        return _arith("pow", o, self)

    def __neg__(self):
        return mk(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if ctx().branch(self.e >= 0) else mk(-self.e)

    def __floordiv__(self, o):
        return _arith("floordiv", self, o)

    def __rfloordiv__(self, o):
        return _arith("floordiv", o, self)

    def __mod__(self, o):
        return _arith("mod", self, o)

    def __rmod__(self, o):
        return _arith("mod", o, self)

    # -- comparisons (fork) ----------------------------------------------------------------------
    def __lt__(self, o):
        return _compare("<", self, o)

    def __le__(self, o):
        return _compare("<=", self, o)

    def __gt__(self, o):
        return _compare(">", self, o)

    def __ge__(self, o):
        return _compare(">=", self, o)

    def __eq__(self, o):
        return _compare("==", self, o)

    def __ne__(self, o):
        return _compare("!=", self, o)

    def __bool__(self):
        return ctx().branch(self.e != 0)

    # -- conversions -----------------------------------------------------------------------------
    def __float__(self):
        c = ctx().concretize(self.e)
        if c is None:
            raise Unsupported("float() of a symbolic value")
        return float(c)

    def __int__(self):
        r = fn_trunc(self)
        c = ctx().concretize(to_expr(r))
        if c is None:
            c = ctx().enumerate_int(to_expr(r))
        return int(c)

    def __index__(self):
        return int(self)

    def __round__(self, nd=None):
        return fn_rint(self) if not nd else fn_round(self, nd)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    def __format__(self, spec):
        return repr(self)

    # numpy-scalar look-alikes
    ndim = 0
    shape = ()
    size = 1

    def item(self):
        return self

    def copy(self):
        return self

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def astype(self, *a, **k):
        return self

    def sum(self, *a, **k):
        return self

    mean = min = max = sum

    def clip(self, min=None, max=None, **k):
        r = self
        if min is not None:
            r = fn_maximum(r, min)
        if max is not None:
            r = fn_minimum(r, max)
        return r

    # numpy's object loops call these by name
    def exp(self):
        return fn_exp(self)

    def log(self):
        return fn_log(self)

    def log10(self):
        return fn_log10(self)

    def sqrt(self):
        return fn_sqrt(self)

    def tanh(self):
        return fn_tanh(self)

    def sin(self):
        return fn_sin(self)

    def cos(self):
        return fn_cos(self)

    def tan(self):
        return fn_tan(self)

    def arctan(self):
        return fn_arctan(self)

    def arccos(self):
        return fn_arccos(self)

    def arcsin(self):
        return fn_arcsin(self)

    def floor(self):
        return fn_floor(self)

    def ceil(self):
        return fn_ceil(self)

    def rint(self):
        return fn_rint(self)

    __floor__ = floor
    __ceil__ = ceil
    __trunc__ = lambda self: fn_trunc(self)  # noqa: E731

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import symnp

        return symnp.array_ufunc(ufunc, method, inputs, kwargs)


def mk(e):
    """Wrap a term; fold to a concrete float if it is a numeral."""
    if z3.is_rational_value(e):
        f = frac_of(e)
        return f.numerator / f.denominator
    e2 = e
    k = e.decl().kind()
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        n = e.num_args()
        if n <= 3 and all(z3.is_rational_value(e.arg(i)) for i in range(n)):
            e2 = z3.simplify(e)
            f = frac_of(e2)
            return f.numerator / f.denominator
    return SymReal(e2)


def _isnan(x):
    return isinstance(x, float) and x != x


def _isinf(x):
    return isinstance(x, float) and (x == math.inf or x == -math.inf)


# Division by zero follows numpy (inf/nan): that is what ufuncs, numpy scalars and numba's parallel
# kernels do.  (Serial njit functions raise ZeroDivisionError instead; see DESIGN.md.)
NUMPY_DIV = True


def _sgn(x):
    """Sign of a value, forking when symbolic."""
    if isinstance(x, SymReal):
        c = ctx()
        if c.branch(x.e > 0):
            return 1
        if c.branch(x.e < 0):
            return -1
        return 0
    return (x > 0) - (x < 0)


def _arith(op, a, b):
    import numpy as np

    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if (isinstance(a, np.ndarray) and a.ndim == 0):
            a = a.item()
        elif (isinstance(b, np.ndarray) and b.ndim == 0):
            b = b.item()
        else:
            return NotImplemented
    for v in (a, b):
        if not isinstance(v, SymReal) and not is_num(v):
            return NotImplemented
    if not isinstance(a, SymReal):
        a = pyfloat(a)
    if not isinstance(b, SymReal):
        b = pyfloat(b)
    if _isnan(a) or _isnan(b):
        return math.nan
    if _isinf(a) or _isinf(b):
        return _arith_inf(op, a, b)
    if op == "add":
        if not isinstance(a, SymReal) and a == 0:
            return b
        if not isinstance(b, SymReal) and b == 0:
            return a
        return mk(to_expr(a) + to_expr(b))
    if op == "sub":
        if not isinstance(b, SymReal) and b == 0:
            return a
        if isinstance(a, SymReal) and isinstance(b, SymReal) and a.e.eq(b.e):
            return 0.0
        return mk(to_expr(a) - to_expr(b))
    if op == "mul":
        for x, y in ((a, b), (b, a)):
            if not isinstance(x, SymReal):
                if x == 0:
                    return 0.0
                if x == 1:
                    return y
        return mk(to_expr(a) * to_expr(b))
    if op == "div":
        return sym_div(a, b)
    if op == "pow":
        return fn_pow(a, b)
    if op == "floordiv":
        return fn_floor(sym_div(a, b))
    if op == "mod":
        q = fn_floor(sym_div(a, b))
        return a - q * b
    raise Unsupported(op)


def _arith_inf(op, a, b):
    if op in ("add", "sub"):
        if _isinf(a) and _isinf(b):
            return a + b if op == "add" else a - b
        if _isinf(a):
            return a
        return b if op == "add" else -b
    if op == "mul":
        s = _sgn(a) * _sgn(b)
        return math.nan if s == 0 else s * math.inf
    if op == "div":
        if _isinf(a) and _isinf(b):
            return math.nan
        if _isinf(b):
            return 0.0
        s = _sgn(b)
        if s == 0:
            s = 1
        return a * s
    raise Unsupported(f"{op} with inf")


def sym_div(a, b):
    if not isinstance(b, SymReal):
        if b == 0:
            if not NUMPY_DIV:
                raise ZeroDivisionError("division by zero")
            s = _sgn(a)
            return math.nan if s == 0 else s * math.inf
        if not isinstance(a, SymReal):
            return a / b
        return mk(a.e * rv(1 / Fraction(repr(b)) if isinstance(b, float) else Fraction(1, b)))
    c = ctx()
    if c.branch(b.e == 0):
        if not NUMPY_DIV:
            raise ZeroDivisionError("division by zero")
        s = _sgn(a)
        return math.nan if s == 0 else s * math.inf
    if not isinstance(a, SymReal) and a == 0:
        return 0.0
    if isinstance(a, SymReal) and a.e.eq(b.e):
        return 1.0
    return SymReal(c.quotient(to_expr(a), b.e))


_OPS = {
    "<": lambda x, y: x < y,
    "<=": lambda x, y: x <= y,
    ">": lambda x, y: x > y,
    ">=": lambda x, y: x >= y,
    "==": lambda x, y: x == y,
    "!=": lambda x, y: x != y,
}


def _compare(op, a, b):
    b = a._coerce(b)
    if b is None:
        if op == "==":
            return False
        if op == "!=":
            return True
        return NotImplemented
    if not isinstance(b, SymReal):
        b = pyfloat(b)
        if _isnan(b):
            return op == "!="
        if _isinf(b):
            return _OPS[op](0.0, b)
        y = rv(b)
    else:
        if a.e.eq(b.e):
            return op in ("<=", ">=", "==")
        y = b.e
    return ctx().branch(_OPS[op](a.e, y))


# ------------------------------------------------------------------------------------------------
# elementary functions
# ------------------------------------------------------------------------------------------------
def _np1(name, x):
    import numpy as np

    with np.errstate(all="ignore"):
        return float(getattr(np, name)(pyfloat(x)))


def fn_minimum(a, b):
    if _isnan(a) or _isnan(b):
        return math.nan
    if not isinstance(a, SymReal) and not isinstance(b, SymReal):
        return min(a, b)
    return a if (a <= b) else b


def fn_maximum(a, b):
    if _isnan(a) or _isnan(b):
        return math.nan
    if not isinstance(a, SymReal) and not isinstance(b, SymReal):
        return max(a, b)
    return a if (a >= b) else b


def fn_fmin(a, b):
    if _isnan(a):
        return b
    if _isnan(b):
        return a
    return fn_minimum(a, b)


def fn_fmax(a, b):
    if _isnan(a):
        return b
    if _isnan(b):
        return a
    return fn_maximum(a, b)


def fn_exp(x):
    if not isinstance(x, SymReal):
        return _np1("exp", x)
    return ctx().fn("exp", x)


def fn_expm1(x):
    if not isinstance(x, SymReal):
        return _np1("expm1", x)
    return fn_exp(x) - 1


def fn_log(x):
    if not isinstance(x, SymReal):
        return _np1("log", x)
    s = _sgn(x)
    if s == 0:
        return -math.inf
    if s < 0:
        return math.nan
    return ctx().fn("log", x)


def fn_log10(x):
    if not isinstance(x, SymReal):
        return _np1("log10", x)
    r = fn_log(x)
    return r * (1 / math.log(10))


def fn_log1p(x):
    if not isinstance(x, SymReal):
        return _np1("log1p", x)
    return fn_log(x + 1)


def fn_sqrt(x):
    if not isinstance(x, SymReal):
        return _np1("sqrt", x)
    if ctx().branch(x.e < 0):
        return math.nan
    return ctx().fn("sqrt", x)


def fn_tanh(x):
    if not isinstance(x, SymReal):
        return _np1("tanh", x)
    return ctx().fn("tanh", x)


def fn_sin(x):
    if not isinstance(x, SymReal):
        return _np1("sin", x)
    return ctx().fn("sin", x)


def fn_cos(x):
    if not isinstance(x, SymReal):
        return _np1("cos", x)
    return ctx().fn("cos", x)


def fn_tan(x):
    if not isinstance(x, SymReal):
        return _np1("tan", x)
    inv = ctx().inverse_of("arctan", x)
    if inv is not None:
        return inv
    return fn_sin(x) / fn_cos(x)


def fn_arctan(x):
    if not isinstance(x, SymReal):
        return _np1("arctan", x)
    return ctx().fn("arctan", x)


def fn_arccos(x):
    if not isinstance(x, SymReal):
        return _np1("arccos", x)
    c = ctx()
    if c.branch(z3.Or(x.e < -1, x.e > 1)):
        return math.nan
    return c.fn("arccos", x)


def fn_arcsin(x):
    if not isinstance(x, SymReal):
        return _np1("arcsin", x)
    c = ctx()
    if c.branch(z3.Or(x.e < -1, x.e > 1)):
        return math.nan
    return c.fn("arcsin", x)


def fn_arctan2(y, x):
    if not isinstance(x, SymReal) and not isinstance(y, SymReal):
        return math.atan2(y, x)
    if _isnan(x) or _isnan(y):
        return math.nan
    return ctx().fn2("arctan2", y, x)


def fn_hypot(a, b):
    return fn_sqrt(a * a + b * b)


def fn_floor(x):
    if not isinstance(x, SymReal):
        return _np1("floor", x)
    return ctx().fn("floor", x)


def fn_ceil(x):
    if not isinstance(x, SymReal):
        return _np1("ceil", x)
    return -fn_floor(-x)


def fn_trunc(x):
    if not isinstance(x, SymReal):
        return _np1("trunc", x)
    if ctx().branch(x.e >= 0):
        return fn_floor(x)
    return fn_ceil(x)


def fn_rint(x):
    # round-half-even is approximated by round-half-up except exactly at ties: fork there
    if not isinstance(x, SymReal):
        return _np1("rint", x)
    f = fn_floor(x)
    d = x - f
    if d < 0.5:
        return f
    if d > 0.5:
        return f + 1
    raise Unsupported("rint tie")


def fn_round(x, nd):
    return fn_rint(x * 10**nd) / 10**nd


def fn_pow(a, b):
    if not isinstance(a, SymReal) and not isinstance(b, SymReal):
        import numpy as np

        with np.errstate(all="ignore"):
            return float(np.power(float(a), float(b)))
    if not isinstance(b, SymReal):
        bb = float(b)
        if bb == 0:
            return 1.0
        if bb == int(bb) and abs(bb) <= 8:
            n = abs(int(bb))
            r = a
            for _ in range(n - 1):
                r = r * a
            return r if bb > 0 else sym_div(1.0, r)
        if bb == 0.5:
            return fn_sqrt(a)
        s = _sgn(a)
        if s < 0:
            return math.nan
        if s == 0:
            return 0.0 if bb > 0 else math.inf
        if bb * 2 == int(bb * 2) and abs(bb) <= 4:
            n = int(abs(bb) - 0.5)
            r = fn_sqrt(a)
            for _ in range(n):
                r = r * a
            return r if bb > 0 else sym_div(1.0, r)
        if bb == 0.25:
            return fn_sqrt(fn_sqrt(a))
        return ctx().fn("pow", a, bb)
    # symbolic exponent
    if not isinstance(a, SymReal):
        aa = float(a)
        if aa < 0:
            raise Unsupported("negative base with symbolic exponent")
        if aa == 0:
            s = _sgn(b)
            return 0.0 if s > 0 else (1.0 if s == 0 else math.inf)
        return fn_exp(b * math.log(aa))
    s = _sgn(a)
    if s < 0:
        raise Unsupported("negative base with symbolic exponent")
    if s == 0:
        sb = _sgn(b)
        return 0.0 if sb > 0 else (1.0 if sb == 0 else math.inf)
    return ctx().fn2("powsym", a, b)


# ------------------------------------------------------------------------------------------------
# context: one execution of the harness along one path
# ------------------------------------------------------------------------------------------------
class Stats:
    def __init__(self):
        self.paths = 0
        self.aborted = 0
        self.branch_queries = 0
        self.branch_unknown = 0
        self.claim_queries = 0
        self.discharged = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.fn_instances = 0
        self.validated = 0
        self.validation_skipped = 0
        self.lemma_rounds = 0

    def add(self, other):
        for k, v in other.__dict__.items():
            setattr(self, k, getattr(self, k) + v)


MONOTONE_INC = {"exp", "log", "sqrt", "tanh", "arctan", "arcsin", "floor"}
MONOTONE_DEC = {"arccos"}
PYFN = {
    "exp": lambda x: math.exp(x) if x < 700 else math.inf,
    "log": lambda x: math.log(x) if x > 0 else math.nan,
    "sqrt": lambda x: math.sqrt(x) if x >= 0 else math.nan,
    "tanh": math.tanh,
    "sin": math.sin,
    "cos": math.cos,
    "arctan": math.atan,
    "arccos": lambda x: math.acos(min(1, max(-1, x))),
    "arcsin": lambda x: math.asin(min(1, max(-1, x))),
    "floor": math.floor,
    "pow": lambda x, c: x**c if x >= 0 else math.nan,
    "arctan2": math.atan2,
    "powsym": lambda x, y: x**y if x >= 0 else math.nan,
    "quot": lambda a, b: a / b if b != 0 else math.nan,
}
PI = math.pi


class Watch:
    """
    The solver cannot always be stopped by its timeout (arithmetic on huge numbers).  A thread ends the process when a query overruns; the parent
    starts it again and passes the numbers of the queries to leave undecided.
    """

    count = 0
    since = None
    skip = {int(x) for x in os.environ.get("VERIF_SKIP_QUERIES", "").split(",") if x}

    @classmethod
    def check(cls, s, timeout_ms, *assumptions):
        cls.count += 1
        if cls.count in cls.skip:
            return z3.unknown
        cls.limit = timeout_ms / 1000 * 2 + 15
        cls.since = time.time()
        try:
            return s.check(*assumptions)
        finally:
            cls.since = None

    @classmethod
    def start(cls):
        def run():
            while True:
                time.sleep(1)
                t = cls.since
                if t is not None and time.time() - t > cls.limit:
                    sys.stdout.write(f"\n@@STALL@@{cls.count}\n")
                    sys.stdout.flush()
                    os._exit(75)

        threading.Thread(target=run, daemon=True).start()


class Context:
    """Symbolic context for one path."""

    symbolic = True

    def __init__(self, explorer, prefix):
        self.ex = explorer
        self.prefix = prefix
        self.decisions = []  # list of ints (branch: 0/1, choose: k)
        self.pc = []  # z3 constraints, in order
        self.inputs = {}  # name -> (z3 var or concrete)
        self.input_order = []
        self.choices = {}
        self.defs = {}  # var name -> (kind, args exprs)
        self.var_expr = {}
        self._fncache = {}
        self._fnlist = {}
        self.observed = []
        self.solver = z3.Solver()
        self.solver.set("timeout", explorer.branch_timeout_ms)
        self.model = None  # last model known to satisfy pc
        self.nfresh = 0
        self.notes = []
        self.claims_made = 0
        self.lemmas = []

    # -- constraint handling ---------------------------------------------------------------------
    def add(self, c):
        if z3.is_true(c):
            return
        self.pc.append(c)
        self.solver.add(c)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(c, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def assume(self, c, msg=None):
        """Assume a z3 condition, a Python bool or a zero-argument callable."""
        if isinstance(c, bool):
            if not c:
                raise PathAbort()
            return
        self.add(c)
        if self._check() == z3.unsat:
            raise PathAbort()

    def _check(self, *extra):
        if self.ex.deadline and time.time() > self.ex.deadline:
            raise Budget("time budget exhausted")
        t = time.time()
        self.ex.stats.branch_queries += 1
        r = Watch.check(self.solver, self.ex.branch_timeout_ms, *extra)
        self.ex.stats.solver_s += time.time() - t
        if r == z3.unknown:
            self.ex.stats.branch_unknown += 1
        return r

    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        idx = len(self.decisions)
        if idx < len(self.prefix):
            v = self.prefix[idx]
            self.decisions.append(v)
            self.add(cond if v else z3.Not(cond))
            return bool(v)
        t_known = f_known = None
        if self.model is not None:
            ev = self.model.eval(cond, model_completion=True)
            if z3.is_true(ev):
                t_known = True
            elif z3.is_false(ev):
                f_known = True
        notcond = z3.Not(cond)
        tmodel = fmodel = None
        if t_known:
            tmodel = self.model
        if f_known:
            fmodel = self.model
        if not t_known:
            self.solver.push()
            self.solver.add(cond)
            r = self._check()
            if r == z3.sat:
                tmodel = self.solver.model()
            self.solver.pop()
            t_known = r != z3.unsat
        if not t_known:
            # forced false (not a decision that needs exploring, but keep indices aligned)
            self.decisions.append(0)
            self.add_quiet(notcond, fmodel)
            if fmodel is None and f_known is None and self.model is None:
                pass
            return False
        if not f_known:
            self.solver.push()
            self.solver.add(notcond)
            r = self._check()
            if r == z3.sat:
                fmodel = self.solver.model()
            self.solver.pop()
            f_known = r != z3.unsat
        if f_known:
            self.ex.push(self.decisions + [0])
        self.decisions.append(1)
        self.add_quiet(cond, tmodel)
        return True

    def add_quiet(self, c, model):
        self.pc.append(c)
        self.solver.add(c)
        self.model = model

    def choose(self, n, name):
        """Nondeterministic choice of an integer in range(n) (enumerated by the explorer)."""
        idx = len(self.decisions)
        if idx < len(self.prefix):
            v = self.prefix[idx]
        else:
            v = 0
            for k in range(n - 1, 0, -1):
                self.ex.push(self.decisions + [k])
        self.decisions.append(v)
        self.choices[name] = v
        return v

    # -- inputs ----------------------------------------------------------------------------------
    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        v = z3.Real(name)
        if name in self.inputs:
            raise Unsupported(f"duplicate input {name}")
        self.inputs[name] = v
        self.input_order.append(name)
        if lo is not None:
            self.add(v > rv(lo) if lo_open else v >= rv(lo))
        if hi is not None:
            self.add(v < rv(hi) if hi_open else v <= rv(hi))
        return SymReal(v)

    # -- fresh definitions -----------------------------------------------------------------------
    def fresh(self, kind, *args):
        self.nfresh += 1
        name = f"@{kind}{self.nfresh}"
        v = z3.Real(name)
        self.defs[name] = (kind, args)
        self.var_expr[name] = v
        return v

    def quotient(self, a, b):
        key = ("quot", a.get_id(), b.get_id())
        if key in self._fncache:
            return self._fncache[key][0]
        q = self.fresh("quot", a, b)
        self._fncache[key] = (q, a, b)
        self.add(q * b == a)
        return q

    def inverse_of(self, fname, x):
        """If x is a variable defined as fname(arg), return arg."""
        if z3.is_const(x.e) and x.e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            d = self.defs.get(x.e.decl().name())
            if d is not None and d[0] == fname:
                return mk(d[1][0])
        return None

    def fn(self, name, x, param=None):
        inv = {"exp": "log", "log": "exp", "arctan": "tan"}.get(name)
        if inv:
            r = self.inverse_of(inv, x)
            if r is None and self.ex.cross:
                r = self.inverse_of(inv, SymReal(z3.simplify(x.e, som=True)))
            if r is not None:
                return r
        if name == "cos":
            r = self.inverse_of("arccos", x)
            if r is not None:
                return r
            r = self.inverse_of("arctan", x)
            if r is not None:
                return sym_div(1.0, fn_sqrt(1 + r * r))
            r = self.inverse_of("arcsin", x)
            if r is not None:
                return fn_sqrt(1 - r * r)
        if name == "sin":
            r = self.inverse_of("arcsin", x)
            if r is not None:
                return r
            r = self.inverse_of("arctan", x)
            if r is not None:
                return sym_div(r, fn_sqrt(1 + r * r))
            r = self.inverse_of("arccos", x)
            if r is not None:
                return fn_sqrt(1 - r * r)
        arg = z3.simplify(x.e, som=True) if self.ex.normalise_args else z3.simplify(x.e)
        if z3.is_rational_value(arg):
            f = frac_of(arg)
            xx = f.numerator / f.denominator
            return float(PYFN[name](xx) if param is None else PYFN[name](xx, param))
        key = (name, arg.get_id(), param)
        if key in self._fncache:
            return SymReal(self._fncache[key][0])
        # arguments that differ by rounding of their constants only are the same argument
        ckey, keep = canon(arg)
        if ckey is not None:
            hit = self._fncache.get((name, ckey, param))
            if hit is not None:
                return SymReal(hit[0])
            if name == "exp":
                hit = self._fncache.get((name, tuple((m, -c) for m, c in ckey), param))
                if hit is not None:
                    return sym_div(1.0, SymReal(hit[0]))
        self.ex.stats.fn_instances += 1
        y = self.fresh(name, arg) if param is None else self.fresh(name, arg, param)
        self._fncache[key] = (y, arg)
        if ckey is not None:
            self._fncache[(name, ckey, param)] = (y, arg, keep)  # keep: the ids in the key must stay taken
        for ax in fn_axioms(name, arg, y, param):
            self.add(ax)
        peers = self._fnlist.setdefault((name, param), [])
        inc = name in MONOTONE_INC or (name == "pow" and param > 0)
        dec = name in MONOTONE_DEC or (name == "pow" and param < 0)
        for (a2, y2) in peers[-self.ex.max_peers:]:
            if inc and name != "floor":
                self.add(z3.And((arg < a2) == (y < y2), (arg == a2) == (y == y2)))
            elif dec:
                self.add(z3.And((arg < a2) == (y > y2), (arg == a2) == (y == y2)))
            elif name == "floor":
                self.add(z3.Implies(arg <= a2, y <= y2))
                self.add(z3.Implies(arg >= a2, y >= y2))
            else:
                self.add(z3.Implies(arg == a2, y == y2))
        peers.append((arg, y))
        if self.ex.cross and name in ("exp", "log"):
            # the other function is the inverse
            for (a2, y2) in self._fnlist.get(("log" if name == "exp" else "exp", None), [])[-self.ex.max_peers:]:
                self.add(z3.And((arg < y2) == (y < a2), (arg == y2) == (y == a2)))
        # sin/cos of the same argument share the unit circle
        if name in ("sin", "cos"):
            other = "cos" if name == "sin" else "sin"
            ko = (other, arg.get_id(), None)
            if ko in self._fncache:
                yo = self._fncache[ko][0]
                self.add(y * y + yo * yo == 1)
        for lem in self.ex.lemmas_for(name, param):
            self.add_lemma(lem, name, param, arg, y)
        return SymReal(y)

    def add_lemma(self, a, name, param, arg, y):
        """Point lemma: monotone function bracketing at the concrete point a."""
        fa = PYFN[name](a) if param is None else PYFN[name](a, param)
        if fa != fa or abs(fa) == math.inf:
            return
        eps = 1e-12 * max(1.0, abs(fa))
        inc = name in MONOTONE_INC or (name == "pow" and param > 0)
        dec = name in MONOTONE_DEC or (name == "pow" and param < 0)
        A, lo, hi = rv(a), rv(fa - eps), rv(fa + eps)
        if inc:
            self.add(z3.Implies(arg <= A, y <= hi))
            self.add(z3.Implies(arg >= A, y >= lo))
        elif dec:
            self.add(z3.Implies(arg <= A, y >= lo))
            self.add(z3.Implies(arg >= A, y <= hi))
        else:
            self.add(z3.Implies(arg == A, z3.And(y >= lo, y <= hi)))
        # tangent (convex exp / concave log, sqrt)
        if name == "exp":
            self.add(y >= rv(fa - eps) * (1 + (arg - A)))
        elif name in ("log",) and a > 0:
            self.add(y <= hi + (arg - A) * rv(1 / a))

    def fn2(self, name, a, b):
        ea, eb = z3.simplify(to_expr(a)), z3.simplify(to_expr(b))
        key = (name, ea.get_id(), eb.get_id())
        if key in self._fncache:
            return SymReal(self._fncache[key][0])
        self.ex.stats.fn_instances += 1
        y = self.fresh(name, ea, eb)
        self._fncache[key] = (y, ea, eb)
        if name == "arctan2":
            pi_lo, pi_hi = rv(3.141592653589793), rv(3.141592653589794)
            self.add(z3.And(y >= -pi_hi, y <= pi_hi))
            self.add(z3.Implies(ea > 0, y > 0))
            self.add(z3.Implies(ea < 0, y < 0))
            self.add(z3.Implies(z3.And(ea == 0, eb >= 0), y == 0))
            self.add(z3.Implies(z3.And(ea == 0, eb < 0), y == rv(PI)))
            h = rv(PI / 2)
            self.add(z3.Implies(eb > 0, z3.And(y > -h, y < h)))
            self.add(z3.Implies(z3.And(eb == 0, ea > 0), y == h))
            self.add(z3.Implies(z3.And(eb == 0, ea < 0), y == -h))
            self.add(z3.Implies(z3.And(eb < 0, ea > 0), y > h))
            self.add(z3.Implies(z3.And(eb < 0, ea < 0), y < -h))
            # distance from the vertical, so that rounding of pi does not blur it
            n, d = rv(1e-6), rv(7e-7)
            self.add(z3.Implies(z3.And(ea > 0, -eb >= n * ea), y >= h + d))
            self.add(z3.Implies(z3.And(ea > 0, eb >= n * ea), y <= h - d))
            self.add(z3.Implies(z3.And(ea < 0, -eb >= -n * ea), y <= -h - d))
            self.add(z3.Implies(z3.And(ea < 0, eb >= -n * ea), y >= -h + d))
            q = rv(PI / 4)
            self.add(z3.Implies(z3.And(eb > 0, ea == eb), y == q))
            self.add(z3.Implies(z3.And(eb > 0, ea == -eb), y == -q))
            self.add(z3.Implies(z3.And(eb < 0, ea == -eb), y == 3 * q))
            self.add(z3.Implies(z3.And(eb < 0, ea == eb), y == -3 * q))
        elif name == "powsym":
            self.add(y > 0)
            self.add(z3.Implies(ea == 1, y == 1))
            self.add(z3.Implies(eb == 0, y == 1))
            self.add(z3.Implies(eb == 1, y == ea))
            self.add(z3.Implies(z3.And(ea > 1, eb > 0), y > 1))
            self.add(z3.Implies(z3.And(ea < 1, eb > 0), y < 1))
            self.add(z3.Implies(z3.And(ea > 1, eb < 0), y < 1))
            self.add(z3.Implies(z3.And(ea < 1, eb < 0), y > 1))
        for (k2, v2) in list(self._fncache.items()):
            if k2[0] == name and v2[0] is not y and len(v2) == 3:
                self.add(z3.Implies(z3.And(v2[1] == ea, v2[2] == eb), v2[0] == y))
        return SymReal(y)

    # -- concretisation --------------------------------------------------------------------------
    def concretize(self, e):
        """Return the unique value of e under the path condition, or None."""
        e = z3.simplify(e)
        if z3.is_rational_value(e):
            return frac_of(e)
        if self._check() != z3.sat:
            return None
        v = self.solver.model().eval(e, model_completion=True)
        if not z3.is_rational_value(v):
            return None
        self.solver.push()
        self.solver.add(e != v)
        r = self._check()
        self.solver.pop()
        if r == z3.unsat:
            return frac_of(v)
        return None

    def enumerate_int(self, e, limit=64):
        """Fork over the (few) integer values of e."""
        for _ in range(limit):
            if self._check() != z3.sat:
                raise PathAbort()
            v = self.solver.model().eval(e, model_completion=True)
            if not z3.is_rational_value(v):
                raise Unsupported("non-rational integer")
            # deterministic: pick by probing 0,1,2,... would be slow; use the model value
            if self.branch(e == v):
                return frac_of(v)
        raise Unsupported("too many integer values")

    # -- observation and claims ------------------------------------------------------------------
    def observe(self, name, value):
        self.observed.append((name, value))

    def claim_le(self, name, a, b, tol=0.0, detail=None):
        return self._claim_rel(name, a, b, tol, "le")

    def claim_lt(self, name, a, b, tol=0.0):
        return self._claim_rel(name, a, b, tol, "lt")

    def claim_ge(self, name, a, b, tol=0.0):
        return self._claim_rel(name, b, a, tol, "le")

    def claim_eq(self, name, a, b, tol=1e-9):
        if _isnan(a) or _isnan(b) or _isinf(a) or _isinf(b):
            ok = (_isnan(a) and _isnan(b)) or (_isinf(a) and a == b)
            return self.claim(name, ok, f"{a!r} vs {b!r}")
        self._claim_rel(name, a, b, tol, "le")
        self._claim_rel(name, b, a, tol, "le")

    def _claim_rel(self, name, a, b, tol, kind):
        for v in (a, b):
            if _isnan(v):
                return self.claim(name, False, "NaN")
        for v in (a, b):
            if _isinf(v):
                return self.claim(name, _OPS["<="](*(0.0 if isinstance(w, SymReal) else w for w in (a, b))), "inf")
        ea, eb = to_expr(a), to_expr(b)
        if isinstance(tol, SymReal):
            t = tol.e
        else:
            t = rv(tol)
        neg = ea - eb > t if kind == "le" else ea - eb >= t
        margin = None
        if kind == "le":
            margin = ea - eb > t * 50 + rv(1e-7)
        self.prove(name, neg, margin)

    def claim(self, name, ok, detail=""):
        """A claim already decided on this path (Python bool) or a z3 condition."""
        if isinstance(ok, z3.ExprRef):
            return self.prove(name, z3.Not(ok), None)
        ok = bool(ok)
        return self.prove(name, z3.BoolVal(not ok), None, detail)

    def prove(self, name, neg, margin=None, detail=""):
        self.claims_made += 1
        self.ex.decide_claim(self, name, neg, margin, detail)


def fn_axioms(name, x, y, param=None):
    ax = []
    one = rv(1)
    if name == "exp":
        ax += [
            y > 0,
            y >= 1 + x,
            z3.Implies(x < 1, y * (1 - x) <= 1),
            z3.Implies(x <= 0, y <= 1),
            z3.Implies(x < 0, y < 1),
            z3.Implies(x > 0, y > 1),
            z3.Implies(x == 0, y == 1),
        ]
    elif name == "log":
        ax += [
            y <= x - 1,
            y * x >= x - 1,
            z3.Implies(x > 1, y > 0),
            z3.Implies(x < 1, y < 0),
            z3.Implies(x == 1, y == 0),
        ]
    elif name == "sqrt":
        ax += [y >= 0, y * y == x]
    elif name == "tanh":
        ax += [
            y < 1,
            y > -1,
            z3.Implies(x > 0, z3.And(y > 0, y < x)),
            z3.Implies(x < 0, z3.And(y < 0, y > x)),
            z3.Implies(x == 0, y == 0),
        ]
    elif name in ("sin", "cos"):
        ax += [y <= 1, y >= -1]
        h, p = rv(PI / 2), rv(PI)
        if name == "sin":
            ax += [
                z3.Implies(z3.And(x > 0, x < p), y > 0),
                z3.Implies(z3.And(x < 0, x > -p), y < 0),
                z3.Implies(x == 0, y == 0),
                z3.Implies(x >= 0, y <= x),
                z3.Implies(x <= 0, y >= x),
            ]
        else:
            ax += [
                z3.Implies(z3.And(x > -h, x < h), y > 0),
                z3.Implies(z3.And(x > h, x < 3 * h), y < 0),
                z3.Implies(z3.And(x < -h, x > -3 * h), y < 0),
                z3.Implies(x == 0, y == 1),
                z3.Implies(z3.And(x >= -h, x <= h), y >= 1 - x * x / 2),
            ]
    elif name == "arctan":
        h = rv(PI / 2)
        ax += [
            y < h,
            y > -h,
            z3.Implies(x > 0, z3.And(y > 0, y < x)),
            z3.Implies(x < 0, z3.And(y < 0, y > x)),
            z3.Implies(x == 0, y == 0),
        ]
    elif name == "arccos":
        h, p = rv(PI / 2), rv(PI)
        ax += [
            y >= 0,
            y <= p,
            z3.Implies(x > 0, y < h),
            z3.Implies(x < 0, y > h),
            z3.Implies(x == 0, y == h),
            z3.Implies(x == 1, y == 0),
            z3.Implies(x == -1, y == p),
            z3.Implies(x >= 0, y <= h - x + rv(1e-15)),
            z3.Implies(x <= 0, y >= h - x - rv(1e-15)),
        ]
    elif name == "arcsin":
        h = rv(PI / 2)
        ax += [
            y >= -h,
            y <= h,
            z3.Implies(x > 0, y > 0),
            z3.Implies(x < 0, y < 0),
            z3.Implies(x == 0, y == 0),
            z3.Implies(x == 1, y == h),
            z3.Implies(x == -1, y == -h),
        ]
    elif name == "floor":
        ax += [z3.IsInt(y), y <= x, x < y + 1]
    elif name == "pow":
        c = param
        ax += [y > 0, z3.Implies(x == 1, y == 1)]
        if c > 0:
            ax += [z3.Implies(x > 1, y > 1), z3.Implies(x < 1, y < 1)]
            if c > 1:
                ax += [z3.Implies(x >= 1, y >= x), z3.Implies(x <= 1, y <= x)]
                # Bernoulli
                ax += [y >= 1 + rv(c) * (x - 1)]
            elif c < 1:
                ax += [z3.Implies(x >= 1, y <= x), z3.Implies(x <= 1, y >= x)]
                ax += [y <= 1 + rv(c) * (x - 1)]
        else:
            ax += [z3.Implies(x > 1, y < 1), z3.Implies(x < 1, y > 1), y >= 1 + rv(c) * (x - 1)]
    return ax


# ------------------------------------------------------------------------------------------------
# numeric evaluation of terms with the true functions
# ------------------------------------------------------------------------------------------------
class NumEval:
    def __init__(self, context, values):
        self.c = context
        self.values = values
        self.memo = {}

    def ev(self, e):
        stack = [e]
        memo = self.memo
        while stack:
            t = stack[-1]
            i = t.get_id()
            if i in memo:
                stack.pop()
                continue
            if z3.is_rational_value(t):
                f = frac_of(t)
                memo[i] = f.numerator / f.denominator
                stack.pop()
                continue
            if z3.is_true(t):
                memo[i] = True
                continue
            if z3.is_false(t):
                memo[i] = False
                continue
            k = t.decl().kind()
            if k == z3.Z3_OP_UNINTERPRETED and t.num_args() == 0:
                n = t.decl().name()
                if n in self.values:
                    memo[i] = self.values[n]
                    stack.pop()
                    continue
                d = self.c.defs[n]
                args = [a for a in d[1] if isinstance(a, z3.ExprRef)]
                pend = [a for a in args if a.get_id() not in memo]
                if pend:
                    stack.extend(pend)
                    continue
                vals = [memo[a.get_id()] if isinstance(a, z3.ExprRef) else a for a in d[1]]
                try:
                    memo[i] = PYFN[d[0]](*vals)
                except (ValueError, OverflowError):
                    memo[i] = math.nan
                stack.pop()
                continue
            ch = [t.arg(j) for j in range(t.num_args())]
            pend = [a for a in ch if a.get_id() not in memo]
            if pend:
                stack.extend(pend)
                continue
            v = [memo[a.get_id()] for a in ch]
            memo[i] = self._op(k, v, t)
            stack.pop()
        return memo[e.get_id()]

    def _op(self, k, v, t):
        if k == z3.Z3_OP_ADD:
            return sum(v)
        if k == z3.Z3_OP_MUL:
            r = 1.0
            for x in v:
                r *= x
            return r
        if k == z3.Z3_OP_SUB:
            r = v[0]
            for x in v[1:]:
                r -= x
            return r
        if k == z3.Z3_OP_UMINUS:
            return -v[0]
        if k == z3.Z3_OP_DIV:
            return v[0] / v[1] if v[1] != 0 else math.nan
        if k == z3.Z3_OP_LE:
            return v[0] <= v[1]
        if k == z3.Z3_OP_LT:
            return v[0] < v[1]
        if k == z3.Z3_OP_GE:
            return v[0] >= v[1]
        if k == z3.Z3_OP_GT:
            return v[0] > v[1]
        if k == z3.Z3_OP_EQ:
            return v[0] == v[1]
        if k == z3.Z3_OP_DISTINCT:
            return v[0] != v[1]
        if k == z3.Z3_OP_AND:
            return all(v)
        if k == z3.Z3_OP_OR:
            return any(v)
        if k == z3.Z3_OP_NOT:
            return not v[0]
        if k == z3.Z3_OP_IMPLIES:
            return (not v[0]) or v[1]
        if k == z3.Z3_OP_ITE:
            return v[1] if v[0] else v[2]
        if k == z3.Z3_OP_POWER:
            return v[0] ** v[1]
        if k == z3.Z3_OP_TO_REAL:
            return v[0]
        if k == z3.Z3_OP_TO_INT:
            return math.floor(v[0])
        if k == z3.Z3_OP_IS_INT:
            return v[0] == math.floor(v[0])
        raise Unsupported(f"numeric evaluation of {t.decl()}")
