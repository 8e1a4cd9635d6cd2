"""What property modules use."""
import numpy as np  # noqa: F401

from . import core  # noqa: F401
from .lab import arr, build_model, prepare  # noqa: F401


class Scenario:
    def __init__(self, name, func, tiers=("quick", "thorough"), expect_violation=False, **opts):
        self.name = name
        self.func = func
        self.tiers = tiers
        self.opts = opts


class Registry:
    def __init__(self):
        self.items = []

    def __call__(self, name=None, tiers=("quick", "thorough"), params=None, merged=False, **opts):
        """
        Decorator.  `params`: dict suffix -> kwargs, one scenario per entry (with `merged`, one scenario that
        branches over the entries, which saves process starts).
        """
        if callable(name):
            return self()(name)

        def deco(f):
            base = name or f.__name__
            if merged:
                groups = {}
                for suffix, kw in params.items():
                    kw = dict(kw)
                    groups.setdefault(tuple(kw.pop("_tiers", tiers)), []).append(kw)
                for t, kws in groups.items():

                    def h(ctx, _f=f, _kws=kws):
                        return _f(ctx, **_kws[ctx.choose(len(_kws), "case")])

                    self.items.append(Scenario(base + ("" if "quick" in t else "+"), h, t, **opts))
            elif params is None:
                self.items.append(Scenario(base, f, tiers, **opts))
            else:
                for suffix, kw in params.items():
                    kw = dict(kw)
                    t = kw.pop("_tiers", tiers)
                    o = dict(opts)
                    o.update(kw.pop("_opts", {}))

                    def g(ctx, _f=f, _kw=kw):
                        return _f(ctx, **_kw)

                    self.items.append(Scenario(f"{base}[{suffix}]", g, t, **o))
            return f

        return deco

    def select(self, tier):
        return [s for s in self.items if tier in s.tiers]


def ssum(xs):
    r = 0.0
    for x in xs:
        r = r + x
    return r


def isnan(x):
    return (not isinstance(x, core.SymReal)) and x != x


def smin(a, b):
    """Forking minimum usable in both modes."""
    return a if a <= b else b


def smax(a, b):
    return a if a >= b else b


def sexp(x):
    return core.fn_exp(x)


def whole(ctx, name, lo, hi):
    """Whole number in lo..hi."""
    x = ctx.real(name, lo, hi)
    if ctx.symbolic:
        import z3

        ctx.assume(z3.IsInt(core.to_expr(x)))
        return x
    return int(round(x))


class stubbed:
    """Temporarily replace attributes: stubbed((obj, "name", replacement), ...)."""

    def __init__(self, *items):
        self.items = items

    def __enter__(self):
        self.saved = []
        for obj, name, f in self.items:
            own = name in vars(obj)
            self.saved.append((obj, name, own, getattr(obj, name)))
            setattr(obj, name, f)

    def __exit__(self, *a):
        for obj, name, own, old in self.saved:
            if own:
                setattr(obj, name, old)
            else:
                delattr(obj, name)


def nop(*a, **k):
    return None
