"""C09: suggested step sizes respect the bounds, the remaining time, and make progress."""
from vlib.run import Harness
from vlib.world import *
from vlib.control import *

ASSUMPTIONS = [
    "real arithmetic: rounding (underflow of powers to 0, overflow to inf) is not modelled",
    "error measures and histories are non-negative finite reals",
    "real powers: uninterpreted, with sign and monotonicity facts",
    "configuration: 0 < tol, 0 <= lower bound < upper bound <= infinity, 0 < safety factor",
]


def _laws(ctx, cfg, k, r, s):
    if r == "refused":
        ctx.reach("refused")
        return
    ctx.check("upper_bound", s <= cfg.upper_bound)
    if r is True:
        ctx.check("never_past_the_end", s <= k.rem)
        ctx.check("lower_bound", s >= ctx.vmin(cfg.lower_bound, k.rem))
        if bool(k.rem > 0):
            ctx.check("progress", s > 0)
        ctx.reach("accepted")
    else:
        ctx.check("retry_smaller", s < k.dt)
        ctx.check("retry_not_past_the_end", s <= k.dt + k.rem)
        ctx.check("retry_positive", s > 0)
        ctx.check("lower_bound", s >= ctx.vmin(cfg.lower_bound, k.dt + k.rem))
        ctx.reach("rejected")


def one(ctx, depth, mode=None, hist="any"):
    ctx.merge = True
    c, cfg, _ = chain(ctx, depth, mode=mode)
    k = Call(ctx, hist=hist)
    r, s = call(c, k)
    _laws(ctx, cfg, k, r, s)
    ctx.reach("done")


def named(ctx, names, hist="any"):
    from rkopenmdao import error_controllers as ec

    ctx.merge = True
    cfg = config(ctx)
    p = int(ctx.int("p", 1, 2))
    c = None
    for n in names:
        c = getattr(ec, n)(p=p, config=cfg, base=c)
    k = Call(ctx, hist=hist)
    r, s = call(c, k)
    _laws(ctx, cfg, k, r, s)
    ctx.reach("done")


def retries(ctx, depth, calls):
    """Retries of one step: strictly decreasing, also across the change of controllers."""
    ctx.merge = True
    mi = int(ctx.int("max_iter", 0, 2))
    c, cfg, _ = chain(ctx, depth, cfg=config(ctx, max_iter=mi), mode="one")
    dt = None
    for i in range(calls):
        k = Call(ctx, str(i), hist="none", remaining="infinite", dt=dt)
        r, s = call(c, k)
        _laws(ctx, cfg, k, r, s)
        if r is not False:
            break
        dt = s
    ctx.reach("done")


def step_exactly_to_the_end(ctx, attempts):
    """An adaptive run until a final time ends exactly there if the first step fits."""
    from rkopenmdao import error_controllers as ec
    from rkopenmdao.error_measurer import ErrorMeasurer
    from rkopenmdao.callback import Callback
    from vlib.layouts import LAYOUTS

    ctx.merge = True
    lay = LAYOUTS["autonomous"]()
    tab = tableau(ctx, 1, "erk", embedded=True)
    tol = ctx.real("tol", positive=True)
    h0, t0, T = ctx.real("h0", positive=True), ctx.real("t0"), ctx.real("T")
    ctx.assume(t0 + h0 <= T)
    log, times = [], []

    class Free(ErrorMeasurer):
        def get_measure(self, state_error_estimate, state, ode):
            if len(log) >= attempts:
                ctx.bound("attempts")
            log.append(ctx.real(f"e{len(log)}", lo=0))
            return log[-1]

    class Rec(Callback):
        def after_iteration(self, i, st, ode, sch):
            t = st.discretization_state.final_time[0]
            ctx.check("time_increases", t > (times[-1] if times else t0))
            ctx.check("never_past_the_end", t <= T)
            times.append(t)

    w = World(
        ctx, lay, tab, step_size=h0, adaptive=True, final_time=T, error_measurer=Free(),
        error_controller=[ec.integral, ec.pid],
        error_controller_options=dict(config=ErrorControllerConfig(tol=tol)),
        compute_callbacks=[Rec()],
    )
    x = [t0] + [ctx.real(f"y{i}") for i in range(lay.n)]
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            y = w.run(x)
    except ErrorControllerError:
        ctx.reach("refused")
        return
    ctx.check_eq("ends_at_final_time", y[0], T)
    ctx.check("some_steps", len(times) > 0)
    ctx.reach("done")


_F = ("ErrorController.__call__", "ErrorController._run",
      "ErrorController._estimate_next_step_function", "ErrorControllerDecorator.__call__",
      "ErrorControllerDecorator._run")
HARNESSES = [
    Harness(
        one,
        quick=[dict(depth=1), dict(depth=2, hist="none"), dict(depth=2, mode="one"),
               dict(depth=3, mode="one")],
        thorough=[dict(depth=1), dict(depth=2), dict(depth=3, mode="one"), dict(depth=3, hist="none")],
        functions=_F, reach=("done", "accepted", "rejected", "refused"),
        opts=dict(max_paths=60000),
        bounds="one call, all reals for error, step size, remaining time, histories, "
        "configuration and exponents, up to two decorators",
    ),
    Harness(
        named,
        quick=[dict(names=[n]) for n in ("integral", "pid", "pc", "h0_330", "h_321", "ppid")]
        + [dict(names=["pid", "integral"], hist="none")],
        thorough=[dict(names=[n]) for n in NAMED]
        + [dict(names=["pid", n]) for n in ("integral", "h0_330", "pc", "pid")],
        functions=_F + ("factories of error_controllers",), opts=dict(max_paths=60000),
        reach=("done", "accepted", "rejected", "refused"),
        bounds="named controllers of order 1, 2",
    ),
    Harness(
        retries, quick=[dict(depth=1, calls=3), dict(depth=2, calls=3)],
        thorough=[dict(depth=2, calls=5), dict(depth=3, calls=4)],
        functions=_F, reach=("done", "accepted", "rejected", "refused"),
        opts=dict(max_paths=60000), bounds="up to 3 (5) attempts of one step",
    ),
    Harness(
        step_exactly_to_the_end, quick=[dict(attempts=2)], thorough=[dict(attempts=4)],
        functions=_F + ("RungeKuttaIntegrator._iterate_on_step", "PredefinedFinalTime"),
        reach=("done",), opts=dict(max_paths=60000),
        bounds="runs with up to 2 (4) attempts, any error sequence, first step fits",
        stubs=("error measurer: unconstrained non-negative reals",),
    ),
]
