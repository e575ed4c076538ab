"""C06: gradients depend on the current inputs only, whatever was called before."""
from vlib.run import Harness
from vlib.history import *

ASSUMPTIONS = [
    "real arithmetic: rounding of IEEE doubles is not modelled",
    "ODE right hand side: arbitrary (uninterpreted) smooth deterministic function",
    "oracle: textbook Runge-Kutta recursion differentiated with dual numbers",
]


def _compare(ctx, H, point, kind):
    x = H.point(point)
    v = H.seed_in("v_")
    exact = ctx.derivative(
        lambda z: run_reference(ctx, H.lay, H.tab, z, H.h, H.N), x, v, exact=True
    )
    H.w.comp_set(x)
    if kind == "rev":
        u = H.seed_out("u_")
        g = H.w.comp_rev(u)
        ctx.check_eq("rev", dot(exact, u), dot(v, g))
    else:
        f = H.w.comp_fwd(v)
        ctx.check_eq("fwd", arr(f), arr(exact))


def history(ctx, layout, s, N, family, first, second, last):
    """Two arbitrary calls at points a / b, then a product at point b: the points may
    agree in some or all components, calls may fail at any evaluation."""
    H = History(ctx, layout, s, "dirk", N, family)
    H.do(first, 0, "a")
    H.do(second, 1, ctx.choice("second_point", ["a", "b"]))
    _compare(ctx, H, ctx.choice("last_point", ["a", "b"]), last)
    ctx.reach(H.cname)
    ctx.reach("done")


def longer(ctx, layout, s, N, family, length):
    """Longer histories of successful calls at two points."""
    H = History(ctx, layout, s, "dirk", N, family)
    for k in range(length):
        op = ctx.choice(f"op{k}", ["run", "fwd", "rev"])
        H.do(op, k, ctx.choice(f"pt{k}", ["a", "b"]))
    _compare(ctx, H, "a", "rev")
    ctx.reach("done")


def same_point_twice(ctx, layout, s, N, family):
    """Without a run in between, repeated reverse and forward products agree."""
    H = History(ctx, layout, s, "dirk", N, family)
    H.w.comp_set(H.point("a"))
    H.w.comp_run()
    _compare(ctx, H, "a", "rev")
    _compare(ctx, H, "a", "fwd")
    _compare(ctx, H, "a", "rev")
    _compare(ctx, H, "a", "rev")
    ctx.reach("done")


def until_time(ctx, layout, s, nmax, first, last):
    """Integrations until a final time: the number of steps depends on the initial time."""
    h, T = ctx.real("h", positive=True), ctx.real("T")
    H = History(ctx, layout, s, "dirk", nmax, "store",
                world=dict(final_time=T, step_size=h))
    steps = {}
    for name in ("a", "b"):
        t, k = H.point(name)[0], 0
        while bool(t < T):
            t, k = t + h, k + 1
            if k > nmax:
                ctx.bound("steps")
        steps[name] = k
    H.do(first, 0, "a")
    for point in ("b", "a"):
        H.N = steps[point]
        _compare(ctx, H, point, last)
    if steps["a"] != steps["b"]:
        ctx.reach("different")
    ctx.reach("done")


def adaptive(ctx, layout, steps, rejections, first, last, controllers):
    """Products of adaptive integrations follow the step sizes of an integration of its own,
    not those, the histories or the rejection counts of earlier calls."""
    P = AdaptivePair(ctx, layout, steps, rejections, controllers)
    w, v = P.used(first), P.fresh()
    if last == "fwd":
        d = flat_inputs(ctx, P.lay, "d")
        y, z = P.attempt(w.comp_fwd, d), P.attempt(v.comp_fwd, d)
    else:
        d = [ctx.real(f"s{i}") for i in range(w.n_out())]
        y, z = P.attempt(w.comp_rev, d), P.attempt(v.comp_rev, d)
    ctx.check("same_outcome", (y is None) == (z is None) and len(P.seen1) == len(P.seen2))
    if y is not None and z is not None and len(P.seen1) == len(P.seen2):
        ctx.check_eq("product", arr(y), arr(z))
        for r, q in zip(P.seen1, P.seen2):
            ctx.check_eq("steps", arr(r), arr(q))
        ctx.reach("compared")
    ctx.reach("done")


def scoped(ctx, layout, s, N, family, first):
    """After other calls, products with some of the variables out of scope (as the linear
    solvers of a surrounding model ask for them), which hold arbitrary values then."""
    H = History(ctx, layout, s, "dirk", N, family)
    w = H.w
    H.do(first, 0, "a")
    x = H.point(ctx.choice("point", ["a", "b"]))
    w.comp_set(x)
    dx = H.seed_in("d")
    names, _ = w.comp_names()
    sc = [n for n in names if bool(ctx.bool("in_" + n))]
    masked = []
    for n, v in zip(names, w._split(w.wrt(), dx).values()):
        masked += list(v.ravel()) if n in sc else [0.0] * v.size
    expected = ctx.derivative(
        lambda z: run_reference(ctx, H.lay, H.tab, z, H.h, N), x, masked, exact=True
    )
    other = [ctx.real(f"o{i}") for i in range(w.n_out())]
    seeds = [ctx.real(f"r{i}") for i in range(w.n_out())]
    scope = None if len(sc) == len(names) else sc
    if ctx.choice("mode", ["fwd", "rev"]) == "fwd":
        _, _, got = w.comp_apply("fwd", dx, other, seeds, scope, [])
        ctx.check_eq("fwd", arr(got), arr(expected))
    else:
        got, _, _ = w.comp_apply("rev", dx, other, seeds, scope, [])
        ctx.check_eq("rev", dot(expected, seeds), dot(masked, got))
    ctx.reach("done")


_ops = ("run", "fwd", "rev", "fail_run", "fail_rev", "fail_fwd", "setup")
_q = [
    dict(layout="scalar_p", s=1, N=2, family="everything", first=o, second=p, last=l)
    for o in _ops for p in _ops for l in ("rev",)
] + [
    dict(layout="scalar_p", s=2, N=2, family="store", first=o, second=p, last="fwd")
    for o in ("run", "rev", "fail_run", "fail_fwd") for p in ("run", "rev", "fwd")
] + [
    dict(layout="scalar_p", s=2, N=2, family="everything", first=o, second=p, last="rev")
    for o, p in (("run", "fwd"), ("run", "run"), ("fail_run", "nothing"), ("run", "nothing"))
]
_t = _q + [
    dict(layout="scalar_p", s=1, N=3, family="everything", first=o, second=p, last="rev")
    for o in _ops for p in _ops
]
_F = (
    "RungeKuttaIntegrator.compute", "RungeKuttaIntegrator.compute_jacvec_product",
    "RungeKuttaIntegrator._compute_jacvec_rev_preparation_phase", "AllCheckpointer",
    "PyrevolveCheckpointer", "OpenMDAOODE",
)
HARNESSES = [
    Harness(
        history, quick=_q, thorough=_t, functions=_F, opts=dict(max_paths=60000),
        reach=("done", "failed", "AllCheckpointer", "SingleLevel", "Memory", "MultiLevel"),
        bounds="all histories of two calls (run, fwd, rev, each also failing at a symbolic "
        "evaluation, re-setup) at two symbolic points that may agree in any components, "
        "then a product at either point; 2 (3) steps",
        stubs=("inner OpenMDAO component: uninterpreted functions, planned failures",),
    ),
    Harness(
        longer, quick=[dict(layout="scalar_p", s=1, N=2, family="store", length=3)],
        thorough=[
            dict(layout="scalar_p", s=1, N=2, family="everything", length=3),
            dict(layout="scalar", s=1, N=2, family="store", length=4),
        ],
        opts=dict(max_paths=100000),
        functions=_F, bounds="histories of three (four) successful calls at two points",
        stubs=("inner OpenMDAO component: uninterpreted functions",),
    ),
    Harness(
        same_point_twice,
        quick=[dict(layout=l, s=2, N=2, family="everything") for l in ("two", "output_only", "three")],
        functions=_F, bounds="2 steps, 2 stages, three layouts",
        stubs=("inner OpenMDAO component: uninterpreted functions",),
    ),
    Harness(
        adaptive,
        quick=[dict(layout="autonomous", steps=2, rejections=1, first=f, last=l, controllers="any")
               for f, l in (("run", "fwd"), ("fwd", "rev"), ("fail_run", "fwd"))]
        + [dict(layout="autonomous", steps=1, rejections=1, first="fail_run", last="fwd",
                controllers="decorated")],
        thorough=[dict(layout="scalar_p", steps=2, rejections=1, first=f, last=l, controllers=c)
                  for f in ("run", "fwd", "rev", "fail_run", "fail_fwd") for l in ("fwd", "rev")
                  for c in ("any", "decorated")],
        functions=_F + ("RungeKuttaIntegrator._reset_error_control", "ErrorController",
                        "ErrorControllerDecorator"),
        reach=("done", "compared"), opts=dict(max_paths=60000, branch_timeout_ms=400),
        bounds="2 steps, one rejected attempt, one earlier call; compared with a new integrator",
        stubs=("error measure and controller: arbitrary functions of their arguments",
               "inner OpenMDAO component: uninterpreted functions"),
    ),
    Harness(
        scoped,
        quick=[dict(layout=l, s=1, N=2, family="store", first=f)
               for l in ("scalar_p", "two") for f in ("fwd", "rev", "fail_fwd")],
        thorough=[dict(layout=l, s=2, N=2, family="everything", first=f)
                  for l in ("scalar_p", "two") for f in _ops],
        functions=_F, reach=("done",), opts=dict(max_paths=60000),
        bounds="one earlier call, then a product with any set of inputs out of scope",
        stubs=("inner OpenMDAO component: uninterpreted functions",),
    ),
    Harness(
        until_time,
        quick=[dict(layout=l, s=1, nmax=2, first=f, last=k)
               for l in ("autonomous", "scalar_p") for f, k in (("run", "rev"), ("rev", "fwd"))],
        thorough=[dict(layout=l, s=2, nmax=3, first=f, last=k)
                  for l in ("autonomous", "scalar_p", "two")
                  for f in ("run", "fwd", "rev") for k in ("rev", "fwd")],
        functions=_F + ("PredefinedFinalTime",), reach=("done", "different"),
        bounds="up to 2 (3) fixed steps until a symbolic final time, one earlier call",
        stubs=("inner OpenMDAO component: uninterpreted functions",),
    ),
]
