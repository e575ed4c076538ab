"""C03: forward mode is the exact derivative of the primal integration."""
from vlib.run import Harness
from vlib.layouts import LAYOUTS
from vlib.world import *
from vlib.sym_ode import SymODE
from rkopenmdao.time_discretization.stage_ordered_runge_kutta_discretization import (
    StageOrderedRungeKuttaDiscretization,
    StageOrderedEmbeddedRungeKuttaDiscretization,
)
from rkopenmdao.time_discretization.time_discretization_scheme_interface import (
    TimeDiscretizationStartingValues,
)

ASSUMPTIONS = [
    "real arithmetic: rounding of IEEE doubles is not modelled",
    "the ODE's own derivative routines are exact (uninterpreted partial derivatives of "
    "an uninterpreted function, taken at the linearization point they are given)",
    "the oracle is the primal code itself executed on dual numbers",
]


def direct(ctx, s, n, m, r, kind, embedded, steps):
    tab = tableau(ctx, s, kind, embedded)
    ode = SymODE(ctx, n, m, r)
    cls = (
        StageOrderedEmbeddedRungeKuttaDiscretization
        if embedded
        else StageOrderedRungeKuttaDiscretization
    )
    disc = cls(tab)
    hs = [ctx.real(f"h{k}") for k in range(steps)]

    def fields(st):
        return [
            st.final_time[0], *st.final_state, *st.stage_times,
            *st.stage_updates.ravel(), *st.stage_states.ravel(),
            *st.stage_independent_outputs.ravel(), *st.start_state, st.start_time[0],
        ]

    def prim(x):
        dt = object if ctx.symbolic else float
        st = disc.time_discretization_starting_scheme(
            ode,
            TimeDiscretizationStartingValues(
                x[0], np.array(x[1 : 1 + n], dtype=dt), np.array(x[1 + n :], dtype=dt)
            ),
            hs[0],
        )
        for h in hs:
            st = disc.compute_step(ode, st, h)
        return fields(st)

    x = [ctx.real("t"), *ctx.reals("y", n), *ctx.reals("p", m)]
    dx = [ctx.real("dt"), *ctx.reals("dy", n), *ctx.reals("dp", m)]
    expected = ctx.derivative(prim, x, dx)
    dt = object if ctx.symbolic else float
    sv = TimeDiscretizationStartingValues(
        x[0], np.array(x[1 : 1 + n], dtype=dt), np.array(x[1 + n :], dtype=dt)
    )
    dsv = TimeDiscretizationStartingValues(
        dx[0], np.array(dx[1 : 1 + n], dtype=dt), np.array(dx[1 + n :], dtype=dt)
    )
    st = disc.time_discretization_starting_scheme(ode, sv, hs[0])
    dst = disc.time_discretization_starting_scheme_derivative(ode, sv, dsv, hs[0])
    for h in hs:
        st = disc.compute_step(ode, st, h)
        dst = disc.compute_step_derivative(ode, st, dst, h)
    ctx.check_eq("derivative", arr(fields(dst)), arr(expected), scale=1e3)
    ctx.check_eq("indep_seed_kept", dst.independent_inputs, arr(dx[1 + n :]))
    fin = disc.time_discretization_finalization_scheme_derivative(ode, st, dst, hs[-1])
    ctx.check_eq("finalized", fin.final_values, arr(expected[1 : 1 + n]), scale=1e3)
    ctx.reach("done")


def component(ctx, layout, s, kind, nmax):
    lay = LAYOUTS[layout]()
    tab = tableau(ctx, s, kind)
    h = ctx.real("h")
    N = ctx.int("N", 1, nmax)
    w = World(ctx, lay, tab, steps=N, step_size=h)
    x = flat_inputs(ctx, lay)
    dx = flat_inputs(ctx, lay, "d")
    expected = ctx.derivative(lambda z: w.run(z), x, dx)
    w.run(x)
    got = w.fwd(dx)
    ctx.check_eq("jacvec", arr(got), arr(expected), scale=1e3)
    ctx.reach(f"N={int(N)}")
    # a second product of the same point, and the outputs were left alone
    dx2 = flat_inputs(ctx, lay, "e")
    got2 = w.fwd(dx2)
    exp2 = ctx.derivative(lambda z: World(ctx, lay, tab, steps=N, step_size=h).run(z), x, dx2)
    ctx.check_eq("second", arr(got2), arr(exp2), scale=1e3)
    ctx.reach("done")


def scoped(ctx, layout, s, nmax):
    """Products as the linear solvers of a surrounding model ask for them: the own part
    of the Jacobian is there already, variables out of scope hold arbitrary values."""
    lay = LAYOUTS[layout]()
    tab = tableau(ctx, s, "dirk")
    h = ctx.real("h")
    N = ctx.int("N", 1, nmax)
    w = World(ctx, lay, tab, steps=N, step_size=h)
    x, dx = flat_inputs(ctx, lay), flat_inputs(ctx, lay, "d")
    w.comp_set(x)
    names, outs = w.comp_names()
    sc_in = [n for n in names if bool(ctx.bool("in_" + n))]
    sc_out = [n for n in outs if bool(ctx.bool("out_" + n))]
    d_out = [ctx.real(f"o{i}") for i in range(w.n_out())]
    left = [ctx.real(f"r{i}") for i in range(w.n_out())]
    masked, o = [], 0
    for n, v in zip(names, w._split(w.wrt(), dx).values()):
        masked += list(v.ravel()) if n in sc_in else [0.0] * v.size
    own = []
    for n, v in zip(outs, w._split(w.of(), d_out).values()):
        own += list(v.ravel()) if n in sc_out else [0.0] * v.size
    expected = ctx.derivative(lambda z: run_reference(ctx, lay, tab, z, h, int(N)), x, masked, exact=True)
    got_in, got_out, got = w.comp_apply(
        "fwd", dx, d_out, left,
        None if len(sc_in) == len(names) else sc_in, None if len(sc_out) == len(outs) else sc_out,
    )
    ctx.check_eq("product", arr(got), arr([a - b for a, b in zip(expected, own)]))
    ctx.check_eq("seeds_kept", arr(got_in), arr(dx))
    ctx.check_eq("outputs_kept", arr(got_out), arr(d_out))
    ctx.reach("done")


_F = (
    "StageOrderedRungeKuttaDiscretization.compute_step_derivative",
    "StageOrderedRungeKuttaDiscretization.compute_step",
    "time_discretization_starting_scheme_derivative",
    "time_discretization_finalization_scheme_derivative",
)
_q = [
    dict(s=1, n=2, m=1, r=1, kind="dirk", embedded=False, steps=2),
    dict(s=2, n=2, m=1, r=1, kind="dirk", embedded=False, steps=1),
    dict(s=3, n=1, m=1, r=1, kind="dirk", embedded=False, steps=1),
    dict(s=2, n=1, m=1, r=1, kind="dirk", embedded=False, steps=3),
    dict(s=3, n=1, m=1, r=0, kind="erk", embedded=True, steps=1),
    dict(s=6, n=1, m=0, r=0, kind="erk", embedded=False, steps=1),
]
_t = _q + [
    dict(s=4, n=1, m=1, r=1, kind="dirk", embedded=False, steps=1),
    dict(s=3, n=2, m=1, r=1, kind="dirk", embedded=False, steps=1),
    dict(s=2, n=2, m=2, r=1, kind="dirk", embedded=False, steps=2),
]
_cq = [
    dict(layout="scalar_p", s=2, kind="dirk", nmax=3),
    dict(layout="autonomous", s=2, kind="erk", nmax=2),
    dict(layout="two", s=2, kind="dirk", nmax=2),
    dict(layout="matrix", s=1, kind="dirk", nmax=1),
    dict(layout="output_only", s=2, kind="dirk", nmax=2),
    dict(layout="three", s=1, kind="dirk", nmax=2),
]
_ct = _cq + [
    dict(layout="scalar_p", s=3, kind="dirk", nmax=2),
    dict(layout="scalar_p", s=1, kind="dirk", nmax=5),
    dict(layout="three", s=2, kind="dirk", nmax=1),
]
HARNESSES = [
    Harness(
        direct, quick=_q, thorough=_t, functions=_F,
        bounds="stages <= 3 (thorough 4), state size <= 2, consecutive steps <= 3; all "
        "coefficients, states, seeds, step sizes symbolic",
        stubs=("DiscretizedODE: uninterpreted functions and partial derivatives",),
    ),
    Harness(
        component, quick=_cq, thorough=_ct, reach=("done", "N=1", "N=2"),
        functions=(
            "RungeKuttaIntegrator.compute_jacvec_product (fwd)",
            "OpenMDAOODE.compute_update_derivative",
        ) + _F,
        bounds="N symbolic in 1..3 (thorough 5), stages <= 2 (3), six layouts",
        stubs=("inner OpenMDAO component: uninterpreted functions",),
    ),
    Harness(
        scoped,
        quick=[dict(layout="scalar_p", s=1, nmax=2), dict(layout="two", s=1, nmax=1)],
        thorough=[dict(layout="scalar_p", s=2, nmax=2), dict(layout="two", s=1, nmax=2),
                  dict(layout="output_only", s=1, nmax=2)],
        functions=("RungeKuttaIntegrator.compute_jacvec_product (fwd)",) + _F,
        bounds="N symbolic in 1..2, every set of inputs and outputs in scope, arbitrary values "
        "in the vectors",
        stubs=("inner OpenMDAO component: uninterpreted functions",),
    ),
]
