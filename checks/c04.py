"""C04: reverse mode is the transpose of forward mode."""
from vlib.run import Harness
from vlib.layouts import LAYOUTS
from vlib.world import *
from vlib.sym_ode import SymODE
from vlib.checkpointing import checkpointer_choice
from rkopenmdao.checkpoint_interface.all_checkpointer import AllCheckpointer
from rkopenmdao.time_discretization.stage_ordered_runge_kutta_discretization import (
    StageOrderedRungeKuttaDiscretization,
    StageOrderedEmbeddedRungeKuttaDiscretization,
)
from rkopenmdao.time_discretization.time_discretization_scheme_interface import (
    TimeDiscretizationFinalizationValues,
    TimeDiscretizationStartingValues,
)

ASSUMPTIONS = [
    "real arithmetic: rounding of IEEE doubles is not modelled",
    "the ODE's own adjoint is the transpose of its own forward derivative",
]


def _vals(v):
    return list(np.asarray(v, dtype=object).ravel())


def direct(ctx, s, n, m, r, kind, embedded, steps):
    """Starting scheme + steps + finalization: <fwd(v), w> == <v, rev(w)> for all v, w."""
    tab = tableau(ctx, s, kind, embedded)
    ode = SymODE(ctx, n, m, r)
    cls = (
        StageOrderedEmbeddedRungeKuttaDiscretization
        if embedded
        else StageOrderedRungeKuttaDiscretization
    )
    disc = cls(tab)
    hs = [ctx.real(f"h{k}") for k in range(steps)]
    dt = object if ctx.symbolic else float

    def sv(name):
        return TimeDiscretizationStartingValues(
            ctx.real(name + "t"),
            np.array(list(ctx.reals(name + "y", n)), dtype=dt),
            np.array(list(ctx.reals(name + "p", m)), dtype=dt),
        )

    import copy

    x, v = sv("x"), sv("v")
    st = disc.time_discretization_starting_scheme(ode, x, hs[0])
    dst = disc.time_discretization_starting_scheme_derivative(ode, x, v, hs[0])
    hist = []
    for h in hs:
        st = disc.compute_step(ode, st, h)
        hist.append(copy.deepcopy(st))
        dst = disc.compute_step_derivative(ode, st, dst, h)
    fin = disc.time_discretization_finalization_scheme_derivative(ode, st, dst, hs[-1])
    w = TimeDiscretizationFinalizationValues(
        ctx.real("wt"),
        np.array(list(ctx.reals("wy", n)), dtype=dt),
        np.array(list(ctx.reals("wo", r)), dtype=dt),
    )
    left = dot(
        _vals(fin.final_time) + _vals(fin.final_values)
        + _vals(fin.final_independent_outputs),
        [w.final_time, *w.final_values, *w.final_independent_outputs],
    )
    adj = disc.time_discretization_finalization_scheme_adjoint_derivative(
        ode, hist[-1], w, hs[-1]
    )
    for k in reversed(range(steps)):
        adj = disc.compute_step_adjoint_derivative(ode, hist[k], adj, hs[k])
    g = disc.time_discretization_starting_scheme_adjoint_derivative(
        ode, x, adj, hs[0]
    )
    right = dot(
        _vals(g.initial_time) + _vals(g.initial_values) + _vals(g.independent_inputs),
        [v.initial_time, *v.initial_values, *v.independent_inputs],
    )
    ctx.check_eq("transpose", left, right)
    ctx.reach("done")


def component(ctx, layout, s, kind, nmax, family):
    lay = LAYOUTS[layout]()
    tab = tableau(ctx, s, kind)
    h = ctx.real("h")
    N = ctx.int("N", 1, nmax)
    cls, opts, name = checkpointer_choice(ctx, family, N, nmax)
    w = World(ctx, lay, tab, steps=N, step_size=h, checkpointer=cls, checkpoint_options=opts)
    x = flat_inputs(ctx, lay)
    v = flat_inputs(ctx, lay, "v")
    u = [ctx.real(f"u{i}") for i in range(w.n_out())]
    w.run(x)
    g = w.rev(u)
    ref = World(ctx, lay, tab, steps=N, step_size=h)
    ref.run(x)
    f = ref.fwd(v)
    ctx.check_eq("transpose", dot(f, u), dot(v, g))
    # a second reverse product at the same point (new seed)
    u2 = [ctx.real(f"s{i}") for i in range(w.n_out())]
    g2 = w.rev(u2)
    ctx.check_eq("second", dot(f, u2), dot(v, g2))
    ctx.reach(name)
    ctx.reach("done")


def scoped(ctx, layout, s, nmax):
    """Reverse products as the linear solvers of a surrounding model ask for them: any
    values in the vectors, only the variables in scope take part."""
    lay = LAYOUTS[layout]()
    tab = tableau(ctx, s, "dirk")
    h = ctx.real("h")
    N = ctx.int("N", 1, nmax)
    w = World(ctx, lay, tab, steps=N, step_size=h, checkpointer=AllCheckpointer)
    x, v = flat_inputs(ctx, lay), flat_inputs(ctx, lay, "v")
    w.comp_set(x)
    names, outs = w.comp_names()
    sc_in = [n for n in names if bool(ctx.bool("in_" + n))]
    sc_out = [n for n in outs if bool(ctx.bool("out_" + n))]
    u = [ctx.real(f"u{i}") for i in range(w.n_out())]
    left_in = flat_inputs(ctx, lay, "l")
    left_out = [ctx.real(f"o{i}") for i in range(w.n_out())]
    in_sizes = [a.size for a in w._split(w.wrt(), x).values()]
    out_sizes = [a.size for a in w._split(w.of(), u).values()]
    keep_in = [n in sc_in for n, k in zip(names, in_sizes) for _ in range(k)]
    keep_out = [n in sc_out for n, k in zip(outs, out_sizes) for _ in range(k)]
    # derivative of the textbook solution along the masked direction, dotted with u
    masked = [a if k else 0.0 for a, k in zip(v, keep_in)]
    expected = ctx.derivative(lambda z: run_reference(ctx, lay, tab, z, h, int(N)), x, masked, exact=True)
    got_in, got_out, got_res = w.comp_apply(
        "rev", left_in, left_out, u,
        None if len(sc_in) == len(names) else sc_in, None if len(sc_out) == len(outs) else sc_out,
    )
    ctx.check_eq("seeds_kept", arr(got_res), arr(u))
    ctx.check_eq(
        "out_of_scope", arr([g for g, k in zip(got_in, keep_in) if not k]),
        arr([0.0 for k in keep_in if not k]),
    )
    # the product with the seeds, however OpenMDAO masks them
    ctx.check_eq(
        "product", dot(expected, u), dot(masked, got_in),
    )
    ctx.check_eq(
        "own_part", arr([g for g, k in zip(got_out, keep_out) if k]),
        arr([-a for a, k in zip(u, keep_out) if k]),
    )
    ctx.reach("done")


_F = (
    "StageOrderedRungeKuttaDiscretization.compute_step_adjoint_derivative",
    "time_discretization_starting_scheme_adjoint_derivative",
    "time_discretization_finalization_scheme_adjoint_derivative",
)
_q = [
    dict(s=1, n=2, m=1, r=1, kind="dirk", embedded=False, steps=2),
    dict(s=2, n=2, m=1, r=1, kind="dirk", embedded=False, steps=1),
    dict(s=3, n=1, m=1, r=1, kind="dirk", embedded=False, steps=1),
    dict(s=2, n=1, m=1, r=1, kind="dirk", embedded=False, steps=2),
    dict(s=4, n=1, m=1, r=0, kind="dirk", embedded=False, steps=1),
    dict(s=3, n=1, m=1, r=0, kind="erk", embedded=True, steps=1),
    dict(s=6, n=1, m=0, r=0, kind="erk", embedded=False, steps=1),
]
_t = _q + [
    dict(s=5, n=1, m=1, r=1, kind="dirk", embedded=False, steps=1),
    dict(s=3, n=2, m=1, r=1, kind="dirk", embedded=False, steps=1),
    dict(s=2, n=1, m=2, r=1, kind="dirk", embedded=False, steps=3),
]
_cq = [
    dict(layout="scalar_p", s=2, kind="dirk", nmax=3, family="all"),
    dict(layout="scalar_p", s=1, kind="dirk", nmax=4, family="revolve"),
    dict(layout="autonomous", s=2, kind="erk", nmax=2, family="all"),
    dict(layout="two", s=2, kind="dirk", nmax=2, family="all"),
    dict(layout="matrix", s=1, kind="dirk", nmax=2, family="all"),
    dict(layout="output_only", s=2, kind="dirk", nmax=2, family="all"),
    dict(layout="three", s=1, kind="dirk", nmax=2, family="all"),
]
_ct = _cq + [
    dict(layout="scalar_p", s=2, kind="dirk", nmax=4, family="revolve"),
    dict(layout="scalar_p", s=3, kind="dirk", nmax=2, family="all"),
    dict(layout="scalar", s=1, kind="dirk", nmax=6, family="all"),
    dict(layout="scalar", s=1, kind="dirk", nmax=7, family="revolve"),
    dict(layout="three", s=2, kind="dirk", nmax=2, family="revolve"),
]
HARNESSES = [
    Harness(
        direct, quick=_q, thorough=_t, functions=_F,
        bounds="stages <= 4 (thorough 5), state size <= 2, consecutive steps <= 2 (3); "
        "all coefficients, states, seeds, step sizes symbolic",
        stubs=("DiscretizedODE: uninterpreted functions and partial derivatives",),
    ),
    Harness(
        component, quick=_cq, thorough=_ct, reach=("done", "AllCheckpointer", "SingleLevel", "Memory"),
        functions=(
            "RungeKuttaIntegrator.compute_jacvec_product (fwd, rev)",
            "OpenMDAOODE.compute_update_adjoint_derivative",
            "AllCheckpointer", "PyrevolveCheckpointer",
        ) + _F,
        bounds="N symbolic in 1..4 (thorough 7), stages <= 2 (3), six layouts, "
        "checkpointer and number of checkpoints symbolic",
        stubs=("inner OpenMDAO component: uninterpreted functions",),
    ),
    Harness(
        scoped,
        quick=[dict(layout="scalar_p", s=1, nmax=2), dict(layout="two", s=1, nmax=1)],
        thorough=[dict(layout="scalar_p", s=2, nmax=2), dict(layout="two", s=1, nmax=2),
                  dict(layout="output_only", s=1, nmax=2)],
        functions=("RungeKuttaIntegrator.compute_jacvec_product (rev)",) + _F,
        bounds="N symbolic in 1..2, every set of inputs and outputs in scope, arbitrary values "
        "in the vectors",
        stubs=("inner OpenMDAO component: uninterpreted functions",),
    ),
]
