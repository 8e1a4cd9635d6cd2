"""Path explorer, claim decision, concrete twin context."""
import math
import random
import os
import sys
import time
import traceback

import numpy as np

from . import core, symnp
from .core import Watch, Budget, Context, NumEval, PathAbort, Stats, SymReal, Unsupported, z3


class ReplayInvalid(Exception):
    """Concrete values do not satisfy the harness' assumptions."""


class Violation:
    def __init__(self, scenario, claim, inputs, choices, detail):
        self.scenario = scenario
        self.claim = claim
        self.inputs = inputs
        self.choices = choices
        self.detail = detail

    def as_dict(self):
        return dict(
            scenario=self.scenario,
            claim=self.claim,
            inputs=self.inputs,
            choices=self.choices,
            detail=self.detail,
        )


class ConcreteContext:
    """Runs a harness on concrete floats against the real code."""

    symbolic = False

    def __init__(self, inputs, choices, rng=None):
        self.given = inputs
        self.given_choices = choices
        self.rng = rng
        self.inputs = {}
        self.choices = {}
        self.observed = []
        self.failures = []
        self.claims = []
        self.notes = []

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        if name in self.given:
            v = float(self.given[name])
        else:
            l = -1e3 if lo is None else float(lo)
            h = l + 1e3 if hi is None else float(hi)
            u = self.rng.random() if self.rng is not None else 0.5
            v = l + (h - l) * u
        eps = 1e-9
        if lo is not None and v < lo - eps * max(1, abs(lo)):
            raise ReplayInvalid(name)
        if hi is not None and v > hi + eps * max(1, abs(hi)):
            raise ReplayInvalid(name)
        self.inputs[name] = v
        return v

    def choose(self, n, name):
        if name in self.given_choices:
            v = self.given_choices[name]
        else:
            v = self.rng.randrange(n) if self.rng is not None else 0
        self.choices[name] = v
        return v

    def assume(self, c, msg=None):
        if not c:
            raise ReplayInvalid(msg or "assumption")

    def observe(self, name, value):
        self.observed.append((name, value))

    def _fail(self, name, detail):
        self.failures.append((name, detail))

    def claim_le(self, name, a, b, tol=0.0, detail=None):
        self.claims.append(name)
        a, b, tol = float(a), float(b), float(tol)
        slack = tol + 1e-9 * max(1.0, abs(a), abs(b))
        if math.isnan(a) or math.isnan(b) or not (a == b or a - b <= slack):
            self._fail(name, f"{a!r} <= {b!r} (tol {tol}) does not hold")

    def claim_lt(self, name, a, b, tol=0.0):
        self.claims.append(name)
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b) or not (a < b + tol):
            self._fail(name, f"{a!r} < {b!r} does not hold")

    def claim_ge(self, name, a, b, tol=0.0):
        return self.claim_le(name, b, a, tol)

    def claim_eq(self, name, a, b, tol=1e-9):
        self.claims.append(name)
        a, b, tol = float(a), float(b), float(tol)
        if math.isnan(a) and math.isnan(b):
            return
        slack = tol + 1e-9 * max(1.0, abs(a), abs(b))
        if a == b:
            return
        if math.isnan(a) or math.isnan(b) or not abs(a - b) <= slack:
            self._fail(name, f"{a!r} == {b!r} (tol {tol}) does not hold")

    def claim(self, name, ok, detail=""):
        self.claims.append(name)
        if not bool(ok):
            self._fail(name, str(detail))


def _z3_solve(constraints, timeout_ms, how, seed=0):
    if how == "default":
        s = z3.Solver()
    elif how == "nlsat":
        s = z3.Then("simplify", "propagate-values", "solve-eqs", "simplify", "qfnra-nlsat").solver()
    elif how == "qfnra":
        s = z3.SolverFor("QF_NRA")
    elif how == "smt6":
        s = z3.Then("simplify", "propagate-values", "solve-eqs", z3.With("simplify", som=True), "smt").solver()
    else:
        raise ValueError(how)
    s.set("timeout", int(timeout_ms))
    for c in constraints:
        s.add(c)
    try:
        r = Watch.check(s, timeout_ms)
    except z3.Z3Exception:
        return z3.unknown, None
    return r, (s.model() if r == z3.sat else None)


class Explorer:
    def __init__(
        self,
        name,
        harness,
        max_paths=4000,
        time_budget=400,
        branch_timeout_ms=1500,
        claim_timeout_ms=20000,
        seed=1,
        validate_paths=6,
        max_violations=3,
        max_peers=6,
        normalise_args=True,
        cross=False,
        lemma_points=(),
        expect_exceptions=(),
        solvers=("default", "nlsat", "smt6"),
        verbose=False,
    ):
        self.name = name
        self.harness = harness
        self.max_paths = max_paths
        self.deadline = time.time() + time_budget
        self.branch_timeout_ms = branch_timeout_ms
        self.claim_timeout_ms = claim_timeout_ms
        self.stats = Stats()
        self.stack = [[]]
        self.violations = []
        self.inconclusive = []
        self.errors = []
        self.claim_counts = {}
        self.seed = seed
        self.validate_paths = validate_paths
        self.max_violations = max_violations
        self.max_peers = max_peers
        self.normalise_args = normalise_args
        self.cross = cross
        self._lemmas = {}
        for fname, pts in dict(lemma_points).items():
            self._lemmas[fname] = list(pts)
        self.functions = set()
        self.expect_exceptions = expect_exceptions
        self.solvers = solvers
        self.samples = []
        self.validation_mismatch = []
        self.reached = 0
        self.verbose = verbose
        self.spurious = 0

    # -- explorer API used by Context ------------------------------------------------------------
    def push(self, prefix):
        self.stack.append(prefix)

    def lemmas_for(self, name, param):
        return self._lemmas.get((name, param), ()) or self._lemmas.get(name, ())

    def decide_claim(self, c, name, neg, margin, detail):
        cc = self.claim_counts.setdefault(name, [0, 0, 0, 0])  # made, discharged, violated, unknown
        cc[0] += 1
        neg = z3.simplify(neg)
        if z3.is_false(neg):
            cc[1] += 1
            self.stats.discharged += 1
            return
        if cc[2] >= 2 or len(self.violations) >= self.max_violations:
            return
        rounds = 0
        extra = []
        while True:
            self.stats.claim_queries += 1
            r, m = self._solve(c, neg, extra)
            if r == z3.unsat:
                cc[1] += 1
                self.stats.discharged += 1
                return
            if r == z3.unknown:
                # bug finding: pin some inputs to concrete values until the query is decidable
                m = self._pin_search(c, neg)
                if m is None:
                    cc[3] += 1
                    self.stats.unknown += 1
                    self.inconclusive.append(f"{name}: solver returned unknown")
                    return
            # try to obtain a counterexample with a margin, which survives rounding
            cand = []
            if margin is not None and rounds == 0:
                r2, m2 = self._solve(c, z3.simplify(margin), extra, quick=True)
                if r2 == z3.sat:
                    cand.append(m2)
            cand.append(m)
            for mm in cand:
                vals = self._values(c, mm)
                ok, det = self._quick_replay(vals, c.choices, name)
                if ok:
                    cc[2] += 1
                    self.violations.append(Violation(self.name, name, vals, dict(c.choices), det))
                    return
            # spurious: refine function approximations at the points the solver chose
            rounds += 1
            self.spurious += 1
            new = self._refine(c, cand)
            self.stats.lemma_rounds += 1
            if rounds > 12 or not new:
                m = self._pin_search(c, neg, confirm=name)
                if m == "reported":
                    cc[2] += 1
                    return
                cc[3] += 1
                self.stats.unknown += 1
                self.inconclusive.append(
                    f"{name}: counterexample does not reproduce on the code: {det} inputs={self._short(vals)}"
                )
                return
            extra += new

    def _short(self, vals):
        return {k: (round(v, 6) if isinstance(v, float) else v) for k, v in list(vals.items())[:12]}

    def _solve(self, c, neg, extra, quick=False):
        t0 = time.time()
        try:
            rem = self.deadline - time.time()
            if rem <= 0:
                raise Budget("time budget exhausted")
            to = min(self.claim_timeout_ms, 1000 * rem)
            if quick:
                to = min(to, 4000)
            cons = c.pc + extra + [neg]
            for k, how in enumerate(self.solvers):
                tt = to if k == len(self.solvers) - 1 else max(500, to / 4)
                r, m = _z3_solve(cons, tt, how)
                if r != z3.unknown:
                    return r, m
            return z3.unknown, None
        finally:
            self.stats.solver_s += time.time() - t0

    def _values(self, c, m):
        vals = {}
        for n in c.input_order:
            v = m.eval(c.inputs[n], model_completion=True) if m is not None else None
            vals[n] = _num(v)
        return vals

    def _pin_search(self, c, neg, confirm=None):
        rng = random.Random(self.seed)
        names = list(c.input_order)
        if not names:
            return None
        for attempt in range(8):
            if time.time() > self.deadline - 5:
                return None
            r, m = None, None
            pins = []
            # a base point of the path
            s = z3.Solver()
            s.set("timeout", 3000)
            s.add(c.pc)
            for n in names:
                if rng.random() < 0.5:
                    s.push()
                    # random bias
                    lo = rv_rand(rng)
                    s.add(c.inputs[n] * lo[1] > lo[0])
                    if Watch.check(s, 3000) != z3.sat:
                        s.pop()
            if Watch.check(s, 3000) != z3.sat:
                continue
            base = s.model()
            k = rng.randrange(max(1, len(names) // 2), len(names) + 1)
            for n in rng.sample(names, k):
                v = base.eval(c.inputs[n], model_completion=True)
                if z3.is_rational_value(v):
                    pins.append(c.inputs[n] == v)
            t0 = time.time()
            r, m = _z3_solve(c.pc + pins + [neg], 3000, "default")
            self.stats.solver_s += time.time() - t0
            if r == z3.sat:
                if confirm is None:
                    return m
                vals = self._values(c, m)
                ok, det = self._quick_replay(vals, c.choices, confirm)
                if ok:
                    self.violations.append(Violation(self.name, confirm, vals, dict(c.choices), det))
                    return "reported"
        return None

    def _refine(self, c, models):
        new = []
        for m in models:
            vals = self._values(c, m)
            ne = NumEval(c, vals)
            for n, (kind, args) in c.defs.items():
                if kind in ("quot", "sqrt"):
                    continue
                y = c.var_expr[n]
                x = args[0]
                xm = _num(m.eval(x, model_completion=True))
                ym = _num(m.eval(y, model_completion=True))
                try:
                    if kind in ("arctan2", "powsym"):
                        bm = _num(m.eval(args[1], model_completion=True))
                        f = core.PYFN[kind](xm, bm)
                        if abs(f - ym) > 1e-9 * max(1, abs(f)):
                            eps = 1e-12 * max(1, abs(f))
                            new.append(
                                z3.Implies(
                                    z3.And(x == core.rv(xm), args[1] == core.rv(bm)),
                                    z3.And(y >= core.rv(f - eps), y <= core.rv(f + eps)),
                                )
                            )
                        continue
                    param = args[1] if len(args) > 1 else None
                    f = core.PYFN[kind](xm) if param is None else core.PYFN[kind](xm, param)
                except (ValueError, OverflowError, ZeroDivisionError):
                    continue
                if abs(f - ym) > 1e-9 * max(1, abs(f)):
                    tmp = _Collect()
                    Context.add_lemma(tmp, xm, kind, param, x, y)
                    if kind in ("exp", "log", "tanh", "pow"):  # close the gap to both sides
                        for d in (-0.01, 0.01):
                            try:
                                Context.add_lemma(tmp, xm + d * max(0.1, abs(xm)), kind, param, x, y)
                            except (ValueError, OverflowError, ZeroDivisionError):
                                pass
                    new += tmp.items
                    lst = self._lemmas.setdefault((kind, param), [])
                    if len(lst) < 12 and xm not in lst:
                        lst.append(xm)
        return new

    # -- concrete twin in this process (no JIT, unpatched modules) ------------------------------
    def run_concrete(self, inputs, choices):
        cc = ConcreteContext(inputs, choices)
        saved = core.CTX
        patched = bool(symnp._patched)
        symnp.unpatch_modules()
        core.CTX = None
        exc = None
        try:
            with np.errstate(all="ignore"):
                self.harness(cc)
        except ReplayInvalid:
            raise
        except Exception as e:  # noqa: BLE001
            if not isinstance(e, self.expect_exceptions):
                exc = e
        finally:
            core.CTX = saved
            if patched:
                symnp.patch_modules()
        return cc, exc

    def _quick_replay(self, vals, choices, name):
        try:
            cc, exc = self.run_concrete(vals, choices)
        except ReplayInvalid as e:
            return False, f"assumption not met concretely ({e})"
        if exc is not None:
            return True, f"exception {type(exc).__name__}: {exc}"
        for n, d in cc.failures:
            if n == name:
                return True, d
        if cc.failures:
            return True, f"[{cc.failures[0][0]}] {cc.failures[0][1]}"
        return False, "claim holds concretely"

    def _validate(self, c):
        """Push a model of this path through the real function and through the encoding."""
        m = c.model
        if m is None:
            s = c.solver
            if c._check() != z3.sat:
                return
            m = s.model()
        self.reached += 1
        if self.stats.validated >= self.validate_paths and self.reached > 1:
            return
        vals = self._values(c, m)
        ne = NumEval(c, vals)
        for p in c.pc:
            if ne.ev(p) is not True:
                self.stats.validation_skipped += 1
                return
        try:
            cc, exc = self.run_concrete(vals, c.choices)
        except ReplayInvalid:
            self.stats.validation_skipped += 1
            return
        if exc is not None:
            self.stats.validation_skipped += 1
            return
        sym = dict(c.observed)
        for n, v in cc.observed:
            if n not in sym:
                continue
            a = _flat(sym[n])
            b = _flat(v)
            if len(a) != len(b):
                self.validation_mismatch.append(f"{n}: shape")
                continue
            for x, y in zip(a, b):
                xv = ne.ev(x.e) if isinstance(x, SymReal) else float(x)
                y = float(y)
                if xv != xv and y != y:
                    continue
                if xv == y:
                    continue
                if not abs(xv - y) <= 1e-6 * max(1.0, abs(xv), abs(y)):
                    self.validation_mismatch.append(f"{n}: encoding {xv} vs code {y} at {self._short(vals)}")
        self.stats.validated += 1
        if len(self.samples) < 3:
            self.samples.append(
                {
                    "scenario": self.name,
                    "choices": dict(c.choices),
                    "path_decisions": len(c.decisions),
                    "witness": self._short(vals),
                }
            )

    # -- main loop -------------------------------------------------------------------------------
    def explore(self):
        import_all()
        while self.stack:
            if self.stats.paths >= self.max_paths:
                self.inconclusive.append(f"path bound {self.max_paths} reached")
                break
            if time.time() > self.deadline:
                self.inconclusive.append("time budget exhausted")
                break
            if len(self.violations) >= self.max_violations:
                break
            prefix = self.stack.pop()
            c = Context(self, prefix)
            core.CTX = c
            prof = _Profiler(self.functions) if self.stats.paths < 40 else None
            try:
                symnp.patch_modules()
                if prof:
                    prof.start()
                try:
                    with np.errstate(all="ignore"):
                        self.harness(c)
                finally:
                    if prof:
                        prof.stop()
                self.stats.paths += 1
                self._validate(c)
            except PathAbort:
                self.stats.aborted += 1
            except Unsupported as e:
                if os.environ.get("VERIF_TRACE"):
                    traceback.print_exc()
                tb = traceback.extract_tb(sys.exc_info()[2])
                where = [f"{f.filename.split('/')[-1]}:{f.lineno}" for f in tb if "/symex/" not in f.filename]
                if not self._fallback(c):
                    self.errors.append(f"unsupported: {e} at {where[-1] if where else '?'}")
                self.stats.paths += 1
            except Budget as e:
                self.inconclusive.append(str(e))
                break
            except Exception as e:  # noqa: BLE001
                self.stats.paths += 1
                if isinstance(e, self.expect_exceptions):
                    continue
                self._exception(c, e)
            finally:
                core.CTX = None
            if self.verbose:
                print(f"  {time.time()-self.deadline:.1f} path {self.stats.paths} dec={len(c.decisions)} stack={len(self.stack)}", file=sys.stderr)
        symnp.unpatch_modules()
        return self

    def _fallback(self, c):
        """
        A path that cannot be encoded completely: replay a solver model of its prefix on the real code.  This
        can only confirm violations, the path itself remains undecided.
        """
        r, m = _z3_solve(c.pc, 5000, "default")
        if r != z3.sat:
            return False
        vals = self._values(c, m)
        try:
            cc, exc = self.run_concrete(vals, c.choices)
        except ReplayInvalid:
            return False
        if (exc is None or harness_fault(exc)) and cc.failures:
            n, d = cc.failures[0]
            self.violations.append(Violation(self.name, n, vals, dict(c.choices), d))
            return True
        return False

    def _exception(self, c, e):
        """The code raised: a violation iff it does so on concrete values of this path."""
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{f.filename.split('/')[-1]}:{f.lineno}" for f in tb if "/symex/" not in f.filename]
        msg = f"{type(e).__name__}: {e} at {where[-1] if where else '?'}"
        r, m = _z3_solve(c.pc, 10000, "default")
        if r == z3.unsat:
            return
        if r == z3.sat:
            vals = self._values(c, m)
            try:
                cc, exc = self.run_concrete(vals, c.choices)
                if exc is not None and harness_fault(exc) and not cc.failures:
                    self.errors.append(f"harness does not fit the code: {msg}")
                    return
                if exc is not None and not (cc.failures and harness_fault(exc)):
                    self.violations.append(
                        Violation(self.name, "no-exception", vals, dict(c.choices), msg)
                    )
                    return
                if cc.failures:
                    n, d = cc.failures[0]
                    self.violations.append(Violation(self.name, n, vals, dict(c.choices), d))
                    return
            except ReplayInvalid:
                pass
        eng = [f"{f.filename.split('/')[-1]}:{f.lineno}" for f in tb][-2:]
        self.errors.append(f"exception only in the encoding: {msg} ({' < '.join(eng)})")


def harness_fault(exc):
    """Whether the exception stems from the harness itself (e.g. an entry point it uses is gone)."""
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    own = None
    for f in traceback.extract_tb(exc.__traceback__):
        if "/openamundsen/" in f.filename:
            own = False
        elif f.filename.startswith(here + "/props/") or f.filename.startswith(here + "/symex/"):
            own = True
    return own is True and isinstance(exc, (AttributeError, ImportError, NameError, KeyError, TypeError))


def import_all():
    """Import every module of the package up front so that patching sees them all."""
    import importlib
    import pkgutil

    from .lab import oa

    pkg = oa()
    for mi in pkgutil.walk_packages(pkg.__path__, "openamundsen."):
        if "liveview" in mi.name:
            continue
        try:
            importlib.import_module(mi.name)
        except Exception:  # noqa: BLE001
            pass


class _Collect:
    def __init__(self):
        self.items = []

    def add(self, c):
        self.items.append(c)


def rv_rand(rng):
    return core.rv(round(rng.uniform(-100, 1000), 2)), core.rv(1)


def _num(v):
    if v is None:
        return 0.0
    if z3.is_rational_value(v):
        f = core.frac_of(v)
        try:
            return f.numerator / f.denominator
        except OverflowError:
            return math.inf
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        f = core.frac_of(a)
        return f.numerator / f.denominator
    return 0.0


def _flat(v):
    if isinstance(v, np.ndarray):
        return list(v.flat)
    if isinstance(v, (list, tuple)):
        return list(v)
    return [v]


class _Profiler:
    """Records which functions of the code under test were executed symbolically."""

    def __init__(self, sink):
        self.sink = sink

    def start(self):
        sink = self.sink

        def prof(frame, event, arg):
            if event == "call":
                fn = frame.f_code.co_filename
                i = fn.find("/openamundsen/")
                if i >= 0:
                    sink.add(fn[i + 1:] + ":" + frame.f_code.co_qualname)

        sys.setprofile(prof)

    def stop(self):
        sys.setprofile(None)
