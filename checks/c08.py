"""C08: a step is accepted exactly if its error is within tolerance or it can't shrink."""
from vlib.run import Harness
from vlib.world import *
from vlib.control import *

ASSUMPTIONS = [
    "real arithmetic: rounding of IEEE doubles is not modelled",
    "error measures are non-negative reals, infinite or NaN (the latter two in single calls)",
    "real powers: uninterpreted, with sign and monotonicity facts",
    "steps within 1e-8 of the lower cutoff but not on it: either decision is allowed",
]


def decision(ctx, depth, named=None, mode=None):
    """One call of any (decorated) controller."""
    ctx.merge = True
    if named:
        from rkopenmdao import error_controllers as ec

        cfg = config(ctx)
        p = int(ctx.int("p", 1, 2))
        c = None
        for n in named:
            c = getattr(ec, n)(p=p, config=cfg, base=c)
    else:
        c, cfg, _ = chain(ctx, depth, mode=mode)
    k = Call(ctx, hist="none" if named and len(named) > 2 else "any")
    not_borderline(ctx, cfg, k)
    r, s = call(c, k)
    must = bool(k.e <= cfg.tol) or bool(k.dt == cfg.lower_bound)
    if must:
        ctx.check("accepted", r is True)
        ctx.reach("accepted")
    else:
        ctx.check("rejected", r is not True)
        ctx.reach("rejected" if r is False else "refused")
    ctx.reach("done")


def overflowed(ctx, depth, named=None):
    """An error measure that overflowed is not within tolerance."""
    ctx.merge = True
    if named:
        from rkopenmdao import error_controllers as ec

        cfg = config(ctx)
        c = None
        for n in named:
            c = getattr(ec, n)(p=2, config=cfg, base=c)
    else:
        c, cfg, _ = chain(ctx, depth, mode="one")
    k = Call(ctx, hist="none")
    k.e = float("inf")
    not_borderline(ctx, cfg, k)
    r, s = call(c, k)
    ctx.check("decision", (r is True) == bool(k.dt == cfg.lower_bound))
    ctx.reach("done")


def sequence(ctx, depth, calls):
    """The decision does not depend on earlier calls of the same controller."""
    ctx.merge = True
    c, cfg, _ = chain(ctx, depth, mode="one")
    dt = None
    for i in range(calls):
        k = Call(ctx, str(i), hist="none", remaining="infinite", dt=dt)
        not_borderline(ctx, cfg, k)
        r, s = call(c, k)
        must = bool(k.e <= cfg.tol) or bool(k.dt == cfg.lower_bound)
        ctx.check("accepted" if must else "rejected", (r is True) == must)
        if r == "refused":
            ctx.reach("refused")
            break
        dt = s
    ctx.reach("done")


class Measurer:
    """Error measures handed out one by one."""


def in_run(ctx, steps, chainlen, layout="scalar"):
    """The integrator takes over the state of a step only if it is within tolerance."""
    ctx.merge = True
    from rkopenmdao.error_measurer import ErrorMeasurer
    from rkopenmdao import error_controllers as ec
    from vlib.layouts import LAYOUTS

    lay = LAYOUTS[layout]()
    tab = tableau(ctx, 1, "erk", embedded=True)
    tol = ctx.real("tol", positive=True)
    lower = ctx.real("lower", positive=True)
    h0 = ctx.real("h0", positive=True)
    log, limit = [], [0]

    class Free(ErrorMeasurer):
        def get_measure(self, state_error_estimate, state, ode):
            k = len(log)
            if k >= steps + 1:
                ctx.bound("attempts")
            log.append(ctx.real(f"e{k}", lo=0))
            return log[-1]

    from rkopenmdao.callback import Callback

    acc = []

    class Rec(Callback):
        def after_iteration(self, i, st, ode, sch):
            acc.append((st.step_size_history[0], st.error_history[0], len(log)))

    T = ctx.real("T", positive=True)
    t0 = ctx.real("t0")
    ctx.assume(t0 + h0 <= T)
    crit = ctx.choice("criterion", ["steps", "time"])
    w = World(
        ctx, lay, tab, steps=steps, step_size=h0, adaptive=True,
        final_time=None if crit == "steps" else T,
        error_measurer=Free(), error_controller=[ec.integral] * chainlen,
        error_controller_options=dict(config=ErrorControllerConfig(tol=tol, lower_bound=lower)),
        compute_callbacks=[Rec()],
    )
    x = [t0] + [ctx.real(f"y{i}") for i in range(lay.n)]
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            w.run(x)
    except ErrorControllerError:
        ctx.reach("refused")
    for h, e, k in acc:
        ctx.check("error_of_accepted_step", bool(e <= tol) or bool(abs(h - lower) < NEAR))
        ctx.check_eq("error_is_of_last_attempt", e, log[k - 1])
    # every attempt before an accepted one was over tolerance
    used = [k for _, _, k in acc]
    for i in range(len(log)):
        if i + 1 not in used and i + 1 < (used[-1] if used else 0):
            ctx.check("rejected_only_over_tolerance", log[i] > tol)
            ctx.reach("rejected")
    ctx.reach(crit)
    ctx.reach("done")


_pairs = [("integral",), ("pid",), ("h0_211", "integral"), ("pid", "integral"),
          ("pseudo",), ("h0_321", "h_312", "integral")]
_all = [(n,) for n in NAMED] + [("integral", n) for n in NAMED]
_F = ("ErrorController.__call__", "ErrorController._run",
      "ErrorController._estimate_next_step_function", "ErrorControllerDecorator.__call__",
      "ErrorControllerDecorator._run")
HARNESSES = [
    Harness(
        decision,
        quick=[dict(depth=1), dict(depth=2, mode="one"), dict(depth=3, mode="one")]
        + [dict(depth=len(n), named=list(n)) for n in _pairs],
        thorough=[dict(depth=1), dict(depth=2), dict(depth=3, mode="one")]
        + [dict(depth=len(n), named=list(n)) for n in _pairs + _all],
        functions=_F + ("all factories of error_controllers",),
        reach=("done", "accepted", "rejected", "refused"),
        opts=dict(max_paths=60000),
        bounds="one call; all reals for error, step size, remaining time, histories, "
        "configuration and exponents; up to two decorators; orders 1, 2",
    ),
    Harness(
        overflowed, quick=[dict(depth=d) for d in (1, 2, 3)]
        + [dict(depth=len(n), named=list(n)) for n in _pairs if n != ("pseudo",)],
        functions=_F, reach=("done",), opts=dict(max_paths=60000),
        bounds="one call with an infinite measure, everything else symbolic",
    ),
    Harness(
        sequence, quick=[dict(depth=1, calls=3), dict(depth=2, calls=3)],
        thorough=[dict(depth=2, calls=4), dict(depth=3, calls=3)],
        functions=_F, reach=("done", "refused"), opts=dict(max_paths=60000),
        bounds="sequences of 3 (4) calls",
    ),
    Harness(
        in_run, quick=[dict(steps=2, chainlen=1), dict(steps=2, chainlen=2)],
        thorough=[dict(steps=3, chainlen=1), dict(steps=3, chainlen=2)],
        functions=_F + ("RungeKuttaIntegrator._iterate_on_step",),
        reach=("done", "steps", "time", "rejected"), opts=dict(max_paths=60000),
        bounds="up to 3 (4) attempts of an adaptive run, any error sequence",
        stubs=("error measurer: unconstrained non-negative reals",
               "inner OpenMDAO component: uninterpreted functions"),
    ),
]
