"""C01: a time step is exactly the step defined by the Butcher tableau."""
from vlib.run import Harness
from vlib.world import *
from vlib.layouts import LAYOUTS
from vlib.sym_ode import SymODE
from rkopenmdao.time_discretization.stage_ordered_runge_kutta_discretization import (
    StageOrderedRungeKuttaDiscretization,
    StageOrderedEmbeddedRungeKuttaDiscretization,
)
from rkopenmdao.time_discretization.time_discretization_scheme_interface import (
    TimeDiscretizationStartingValues,
)

ASSUMPTIONS = [
    "real arithmetic: rounding of IEEE doubles is not modelled",
    "ODE right hand side: arbitrary function (uninterpreted) of time, step input, stage "
    "input, independent input, step size and stage factor",
]


def direct(ctx, s, n, m, r, kind, embedded, steps):
    """The discretization on its own, several consecutive steps."""
    tab = tableau(ctx, s, kind, embedded)
    ode = SymODE(ctx, n, m, r)
    cls = (
        StageOrderedEmbeddedRungeKuttaDiscretization
        if embedded
        else StageOrderedRungeKuttaDiscretization
    )
    disc = cls(tab)
    t, y, ind = ctx.real("t"), ctx.reals("y", n), ctx.reals("p", m)
    st = disc.time_discretization_starting_scheme(
        ode, TimeDiscretizationStartingValues(t, y.copy(), ind.copy()), ctx.real("h0")
    )
    A, b, c = tab.butcher_matrix, tab.butcher_weight_vector, tab.butcher_time_stages
    y = list(y)
    for k in range(steps):
        h = ctx.real(f"h{k}")
        st = disc.compute_step(ode, st, h)
        ks, ss, outs, times, lins = [], [], [], [], []
        for i in range(s):
            acc = [0] * n
            for j in range(i):
                acc = [u + A[i, j] * v for u, v in zip(acc, ks[j])]
            ti = t + c[i] * h
            args = ode.args(ti, y, acc, ind)
            v = [ode.f(o, args, h, A[i, i]) for o in ode.outs()]
            ks.append(v[:n])
            ss.append(v[n : 2 * n])
            outs.append(v[2 * n :])
            times.append(ti)
            lins.append(args)
        yn = list(y)
        for i in range(s):
            yn = [u + h * b[i] * v for u, v in zip(yn, ks[i])]
        ctx.check_eq("stage_times", st.stage_times, arr(times))
        ctx.check_eq("stage_updates", st.stage_updates, np.array(ks, dtype=object))
        ctx.check_eq("stage_states", st.stage_states, np.array(ss, dtype=object))
        ctx.check_eq(
            "stage_outputs",
            st.stage_independent_outputs,
            np.array(outs, dtype=object).reshape(s, r),
        )
        ctx.check_eq("lin_points", st.linearization_points, np.array(lins, dtype=object))
        ctx.check_eq("start_state", st.start_state, arr(y))
        ctx.check_eq("start_time", st.start_time[0], t)
        ctx.check_eq("final_state", st.final_state, arr(yn))
        ctx.check_eq("final_time", st.final_time[0], t + h)
        ctx.check_eq("step_size", st.step_size[0], h)
        ctx.check_eq("independent_inputs", st.independent_inputs, arr(ind))
        fin = disc.time_discretization_finalization_scheme(ode, st, h)
        ctx.check_eq("finalized_state", fin.final_values, arr(yn))
        ctx.check_eq("finalized_time", np.asarray(fin.final_time, dtype=object).ravel()[0], t + h)
        y, t = yn, t + h
    ctx.reach("done")


def component(ctx, layout, s, kind, nmax):
    """The OpenMDAO component: outputs are N textbook steps from the inputs."""
    lay = LAYOUTS[layout]()
    tab = tableau(ctx, s, kind)
    h = ctx.real("h")
    N = ctx.int("N", 0, nmax)
    w = World(ctx, lay, tab, steps=N, step_size=h)
    x = flat_inputs(ctx, lay)
    y = w.run(x)
    n = int(N)
    ctx.check_eq("outputs", arr(y), arr(run_reference(ctx, lay, tab, x, h, n)))
    ctx.reach(f"N={n}")
    ctx.reach("done")


_F = (
    "StageOrderedRungeKuttaDiscretization.compute_step",
    "StageOrderedRungeKuttaDiscretization.time_discretization_starting_scheme",
    "StageOrderedRungeKuttaDiscretization.time_discretization_finalization_scheme",
)
_q = [
    dict(s=1, n=2, m=1, r=1, kind="dirk", embedded=False, steps=2),
    dict(s=2, n=2, m=1, r=1, kind="dirk", embedded=False, steps=2),
    dict(s=3, n=2, m=1, r=1, kind="dirk", embedded=False, steps=1),
    dict(s=4, n=1, m=1, r=0, kind="dirk", embedded=False, steps=1),
    dict(s=3, n=1, m=0, r=0, kind="erk", embedded=False, steps=2),
    dict(s=2, n=1, m=1, r=1, kind="dirk", embedded=True, steps=2),
    dict(s=3, n=1, m=1, r=1, kind="erk", embedded=True, steps=1),
    dict(s=7, n=1, m=0, r=0, kind="erk", embedded=False, steps=1),
    dict(s=6, n=1, m=0, r=0, kind="dirk", embedded=False, steps=1),
]
_t = _q + [
    dict(s=5, n=2, m=1, r=1, kind="dirk", embedded=False, steps=1),
    dict(s=6, n=1, m=1, r=1, kind="dirk", embedded=True, steps=1),
    dict(s=3, n=3, m=2, r=2, kind="dirk", embedded=False, steps=3),
    dict(s=2, n=1, m=1, r=1, kind="dirk", embedded=False, steps=5),
]
_cq = [
    dict(layout="scalar", s=2, kind="dirk", nmax=3),
    dict(layout="autonomous", s=2, kind="erk", nmax=2),
    dict(layout="two", s=2, kind="dirk", nmax=2),
    dict(layout="matrix", s=2, kind="dirk", nmax=1),
    dict(layout="output_only", s=2, kind="dirk", nmax=2),
    dict(layout="three", s=1, kind="dirk", nmax=2),
]
_ct = _cq + [
    dict(layout="scalar", s=3, kind="dirk", nmax=5),
    dict(layout="three", s=3, kind="dirk", nmax=2),
    dict(layout="output_only", s=3, kind="erk", nmax=3),
]
HARNESSES = [
    Harness(
        direct, quick=_q, thorough=_t, functions=_F,
        bounds="stages <= 4 (thorough 6), state size <= 2 (3), consecutive steps <= 2 "
        "(5); all coefficients, times, states, step sizes symbolic",
        stubs=("DiscretizedODE: uninterpreted functions",),
    ),
    Harness(
        component, quick=_cq, thorough=_ct, reach=("done", "N=0", "N=1", "N=2"),
        functions=(
            "RungeKuttaIntegrator.setup/compute", "OpenMDAOODE.compute_update",
            "extract_time_integration_metadata", "NoCheckpointer.iterate_forward",
        ) + _F,
        bounds="N symbolic in 0..3 (thorough 5), stages <= 2 (3), six quantity layouts",
        stubs=("inner OpenMDAO component: uninterpreted functions",),
    ),
]
