"""C05: the result of an integration depends on its inputs only."""
from vlib.run import Harness
from vlib.history import *

ASSUMPTIONS = [
    "real arithmetic: rounding of IEEE doubles is not modelled",
    "ODE right hand side: arbitrary (uninterpreted) deterministic function",
]


def history(ctx, layout, s, N, family, first, second=None):
    """Any two calls before (products, failing runs, re-setup), at the same or other
    points, do not change what compute returns; nor does the checkpointer."""
    H = History(ctx, layout, s, "dirk", N, family)
    H.do(first, 0, "a")
    if second is not None:
        H.do(second, 1, ctx.choice("second_point", ["a", "b"]))
    H.w.comp_set(H.point("b"))
    y = H.w.comp_run()
    ctx.check_eq(
        "outputs", arr(y), arr(run_reference(ctx, H.lay, H.tab, H.point("b"), H.h, N))
    )
    ctx.reach(H.cname)
    ctx.reach("done")


def problem_level(ctx, layout, s, nmax, family):
    """The same through the driver's interface, twice, and outputs survive products."""
    from vlib.layouts import LAYOUTS

    lay = LAYOUTS[layout]()
    tab = tableau(ctx, s, "dirk")
    h = ctx.real("h")
    N = ctx.int("N", 0, nmax)
    n = int(N)
    cls, opts, name = checkpointer_choice(ctx, family, n, nmax)
    w = World(ctx, lay, tab, steps=n, step_size=h, checkpointer=cls, checkpoint_options=opts)
    x = flat_inputs(ctx, lay, "x")
    ref = arr(run_reference(ctx, lay, tab, x, h, n))
    ctx.check_eq("first", arr(w.run(x)), ref)
    if n and name != "NoCheckpointer":
        w.rev([ctx.real(f"u{i}") for i in range(w.n_out())])
    if n:
        w.fwd(flat_inputs(ctx, lay, "d"))
    # the products leave the outputs and inputs of the model alone
    got = w._join(w.of(), {k: w.p.get_val(k) for k in w.of()})
    ctx.check_eq("outputs_kept", arr(got), ref)
    got = w._join(w.wrt(), {k: w.p.get_val(k) for k in w.wrt()})
    ctx.check_eq("inputs_kept", arr(got), arr(x))
    z = flat_inputs(ctx, lay, "z")
    ctx.check_eq("second", arr(w.run(z)), arr(run_reference(ctx, lay, tab, z, h, n)))
    ctx.check_eq("third", arr(w.run(x)), ref)
    ctx.reach(name)
    ctx.reach("done")


def shared_options(ctx, N):
    """Two integrators configured from the same option objects do not influence each
    other."""
    from vlib.layouts import LAYOUTS

    lay = LAYOUTS["scalar_p"]()
    h = ctx.real("h")
    cls, opts, name = checkpointer_choice(ctx, "any", N, N)
    tabs = [tableau(ctx, 1, "dirk", name="T"), tableau(ctx, 2, "dirk", name="S")]
    ws = [
        World(ctx, lay, t, steps=N, step_size=h, checkpointer=cls, checkpoint_options=opts)
        for t in tabs
    ]
    x = flat_inputs(ctx, lay, "x")
    for k in (0, 1, 0):
        ctx.check_eq(
            f"integrator{k}", arr(ws[k].run(x)),
            arr(run_reference(ctx, lay, tabs[k], x, h, N)),
        )
    ctx.reach(name)
    ctx.reach("done")


def adaptive(ctx, layout, steps, rejections, first, controllers):
    """The same for adaptive integrations: neither step sizes, histories nor rejection
    counts of an earlier (failed) call remain."""
    P = AdaptivePair(ctx, layout, steps, rejections, controllers)
    w, v = P.used(first), P.fresh()
    y, z = P.attempt(w.comp_run), P.attempt(v.comp_run)
    ctx.check("same_outcome", (y is None) == (z is None) and len(P.seen1) == len(P.seen2))
    if y is not None and z is not None and len(P.seen1) == len(P.seen2):
        ctx.check_eq("outputs", arr(y), arr(z))
        for r, q in zip(P.seen1, P.seen2):
            ctx.check_eq("steps", arr(r), arr(q))
        ctx.reach("compared")
    ctx.reach("done")


_pairs = [
    dict(layout="scalar_p", s=2, N=2, family="any", first=o, second=p)
    for o in ("run", "fwd", "rev", "fail_run", "fail_rev", "setup")
    for p in ("rev", "fail_run", "fwd")
]
_single = [
    dict(layout=l, s=2, N=2, family="any", first=o)
    for l in ("two", "three")
    for o in ("run", "fwd", "rev", "fail_run", "fail_rev", "fail_fwd", "setup")
]


def _usable(ps):
    """reverse products are not available without checkpoints"""
    for p in ps:
        if any("rev" in str(p.get(k)) for k in ("first", "second")):
            p["family"] = "everything"
    return ps


_F = (
    "RungeKuttaIntegrator.compute", "RungeKuttaIntegrator.compute_jacvec_product",
    "NoCheckpointer", "AllCheckpointer", "PyrevolveCheckpointer", "TimeIntegrationState.set",
)
HARNESSES = [
    Harness(
        history, quick=_usable(_pairs + _single),
        thorough=_usable(_pairs + _single + [
            dict(layout="scalar_p", s=1, N=4, family="any", first=o, second=p)
            for o in OPS[:-1] for p in OPS[:-1]]),
        reach=("done", "failed", "AllCheckpointer", "NoCheckpointer", "SingleLevel", "Memory", "MultiLevel"),
        functions=_F,
        bounds="all histories of up to two calls out of run/fwd/rev/failing call/re-setup "
        "at symbolic points, 2 steps (thorough 4), failing evaluation index symbolic, "
        "checkpointer and checkpoint count symbolic",
        stubs=("inner OpenMDAO component: uninterpreted functions, planned failures",),
    ),
    Harness(
        problem_level,
        quick=[
            dict(layout="scalar_p", s=2, nmax=4, family="any"),
            dict(layout="output_only", s=2, nmax=2, family="any"),
            dict(layout="matrix", s=1, nmax=2, family="any"),
        ],
        thorough=[
            dict(layout="scalar_p", s=2, nmax=7, family="any"),
            dict(layout="output_only", s=3, nmax=3, family="any"),
            dict(layout="matrix", s=2, nmax=3, family="any"),
        ],
        reach=("done", "NoCheckpointer", "AllCheckpointer", "SingleLevel", "MultiLevel", "Memory"),
        functions=_F, bounds="N symbolic in 0..4 (7), stages <= 2 (3)",
        stubs=("inner OpenMDAO component: uninterpreted functions",),
    ),
    Harness(
        shared_options, quick=[dict(N=1), dict(N=2), dict(N=3)],
        functions=_F, bounds="1..3 steps, two integrators",
        stubs=("inner OpenMDAO component: uninterpreted functions",),
    ),
    Harness(
        adaptive,
        quick=[
            dict(layout="autonomous", steps=2, rejections=1, first=f, controllers="any")
            for f in ("run", "fail_run", "fwd", "rev")
        ] + [
            dict(layout="autonomous", steps=1, rejections=1, first=f, controllers=c)
            for f in ("run", "fail_run") for c in ("real", "decorated", "nested")
        ],
        thorough=[
            dict(layout="scalar_p", steps=2, rejections=2, first=f, controllers=c)
            for f in ("run", "fail_run", "fwd", "rev", "fail_rev", "fail_fwd")
            for c in ("any", "real", "decorated", "nested")
        ],
        functions=_F + ("RungeKuttaIntegrator._reset_error_control", "ErrorController",
                        "ErrorControllerDecorator"),
        reach=("done", "failed", "compared"), opts=dict(max_paths=60000, branch_timeout_ms=400),
        bounds="2 steps, one rejected attempt (thorough: 2), one earlier call",
        stubs=("error measure and controller: arbitrary functions of their arguments",
               "inner OpenMDAO component: uninterpreted functions"),
    ),
]
