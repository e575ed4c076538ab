"""Symbolic step size controllers and their reference semantics."""
import contextlib
import warnings

import numpy as np

from rkopenmdao.error_controller import (
    ErrorController,
    ErrorControllerConfig,
    ErrorControllerDecorator,
)
from rkopenmdao.errors import ErrorControllerError

# closer than this to the lower cutoff counts as "at the cutoff" or not, as the code likes
NEAR = 1e-8


def config(ctx, infinite=True, max_iter=None):
    """Any sensible configuration: 0 < tol, 0 <= lower < upper <= inf."""
    tol = ctx.real("tol", positive=True)
    lower = ctx.choice("lower_kind", ["zero", "positive"])
    lower = 0 if lower == "zero" else ctx.real("lower", positive=True)
    kinds = ["infinite", "finite"] if infinite else ["finite"]
    if ctx.choice("upper_kind", kinds) == "infinite":
        upper = np.inf
    else:
        upper = ctx.real("upper", positive=True)
        ctx.assume(upper > lower)
    safety = ctx.real("safety", positive=True)
    mi = 5 if max_iter is None else max_iter
    return ErrorControllerConfig(tol, lower, upper, safety, mi)


class Exps:
    def __init__(self, ctx, name, zero=(), mode=None):
        for k in ("alpha", "beta", "gamma", "a", "b"):
            v = 0 if k in zero else ctx.real(name + k)
            if mode == "one":  # concrete exponents keep the number of paths down
                v = dict(alpha=0.5, beta=0, gamma=0, a=0, b=0)[k]
            setattr(self, k, v)

    def kw(self):
        return {k: getattr(self, k) for k in ("alpha", "beta", "gamma", "a", "b")}


class Call:
    """Arguments of one controller call."""

    def __init__(self, ctx, tag="", dt=None, hist="any", remaining="any"):
        self.e = ctx.real("e" + tag, lo=0)
        self.dt = ctx.real("dt" + tag, positive=True) if dt is None else dt
        kinds = dict(any=["finite", "infinite"], finite=["finite"], infinite=["infinite"])
        if ctx.choice("rem_kind" + tag, kinds[remaining]) == "infinite":
            self.rem = np.inf
        else:
            self.rem = ctx.real("rem" + tag, lo=0)
        mk = lambda xs: np.array(xs, dtype=object if ctx.symbolic else float)
        if hist == "any":
            self.eh = mk([ctx.real(f"eh{tag}{i}", lo=0) for i in range(2)])
            self.hh = mk([ctx.real(f"hh{tag}{i}", lo=0) for i in range(2)])
        else:
            self.eh = mk([1.0, 1.0])
            self.hh = mk([0.0, 0.0])

    def kw(self):
        return dict(
            error_measure=self.e, delta_t=self.dt, remaining_time=self.rem,
            error_history=self.eh, step_size_history=self.hh,
        )


def call(ctrl, c):
    """(accepted, suggestion) or ("refused", exception)"""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            s = ctrl(**c.kw())
        except ErrorControllerError as e:
            return "refused", e
    return bool(s.acceptance), s.step_size_suggestion


def raw(cfg, x, c):
    """The step size law."""
    if bool(c.e == 0):
        return c.dt
    r = cfg.safety_factor * c.dt * (cfg.tol / c.e) ** x.alpha
    if bool(c.eh[0] != 0):
        r = r * (c.eh[0] / cfg.tol) ** x.beta
    if bool(c.eh[1] != 0):
        r = r * (cfg.tol / c.eh[1]) ** x.gamma
    if bool(c.hh[0] != 0):
        r = r * (c.dt / c.hh[0]) ** x.a
        if bool(c.hh[1] != 0):
            r = r * (c.hh[0] / c.hh[1]) ** x.b
    return r


def accepts(cfg, c):
    return bool(c.e <= cfg.tol) or bool(abs(c.dt - cfg.lower_bound) < 1e-10)


def reference(ctx, cfg, x, c):
    acc = accepts(cfg, c)
    r = raw(cfg, x, c)
    s = ctx.vmax(cfg.lower_bound, ctx.vmin(cfg.upper_bound, r))
    s = ctx.vmin(c.rem + (0 if acc else c.dt), s)
    return acc, s


def not_borderline(ctx, cfg, c):
    """Stay away from the code's freedom in what counts as "at the lower cutoff"."""
    d = abs(c.dt - cfg.lower_bound)
    ctx.assume(bool(d == 0) or bool(d > NEAR))


def chain(ctx, depth, cfg=None, mode=None, **kw):
    """A controller with depth-1 decorators; returns (controller, exponents)."""
    cfg = cfg or config(ctx)
    xs = [Exps(ctx, f"x{i}", mode=mode, **kw) for i in range(depth)]
    c = ErrorController(config=cfg, **xs[0].kw())
    for x in xs[1:]:
        c = ErrorControllerDecorator(error_controller=c, **x.kw())
    return c, cfg, xs


NAMED = dict(
    # published exponents times the order: alpha, beta, gamma (divided by k), a, b
    pseudo=(None, 0, 0, 0, 0, 0),
    integral=("p+1", 1, 0, 0, 0, 0),
    h0_110=("p+1", 1, 0, 0, 0, 0),
    h_211=("p", 1 / 4, -1 / 4, 0, -1 / 4, 0),
    h0_211=("p", 1 / 2, -1 / 2, 0, -1 / 2, 0),
    pc=("p", 2, 1, 0, 1, 0),
    h0_220=("p", 2, 1, 0, 1, 0),
    pid=("p", 1 / 18, -1 / 9, 1 / 18, 0, 0),
    h_312=("p", 1 / 8, -1 / 4, 1 / 8, -3 / 8, -1 / 8),
    h0_312=("p", 1 / 4, -1 / 2, 1 / 4, -3 / 4, -1 / 4),
    ppid=("p", 6 / 20, -1 / 20, -5 / 20, 1, 0),
    h_321=("p", 1 / 3, -1 / 18, -5 / 18, 5 / 6, 1 / 6),
    h0_321=("p", 5 / 4, -1 / 2, -3 / 4, 1 / 4, 3 / 4),
    h0_330=("p", 3, 3, 1, 2, -1),
)
