"""C02: the embedded solution and error estimate are those of the tableau."""
from vlib.run import Harness
from vlib.world import *
from vlib.layouts import LAYOUTS
from vlib.sym_ode import SymODE
from rkopenmdao.callback import Callback
from rkopenmdao.time_discretization.stage_ordered_runge_kutta_discretization import (
    StageOrderedEmbeddedRungeKuttaDiscretization,
)
from rkopenmdao.time_discretization.time_discretization_scheme_interface import (
    TimeDiscretizationStartingValues,
)

ASSUMPTIONS = [
    "real arithmetic: rounding of IEEE doubles is not modelled",
    "ODE right hand side: arbitrary function (uninterpreted)",
]


def direct(ctx, s, n, kind, steps):
    tab = tableau(ctx, s, kind, embedded=True)
    ode = SymODE(ctx, n, 1, 0)
    disc = StageOrderedEmbeddedRungeKuttaDiscretization(tab)
    b, bh = tab.butcher_weight_vector, tab.butcher_adaptive_weights
    y = list(ctx.reals("y", n))
    dt = object if ctx.symbolic else float
    st = disc.time_discretization_starting_scheme(
        ode,
        TimeDiscretizationStartingValues(
            ctx.real("t"), np.array(y, dtype=dt), np.array([ctx.real("p")], dtype=dt)
        ),
        ctx.real("h0"),
    )
    for k in range(steps):
        h = ctx.real(f"h{k}")
        st = disc.compute_step(ode, st, h)
        ks = st.stage_updates
        yn, yh, err = list(y), list(y), [0] * n
        for i in range(s):
            yn = [u + h * b[i] * v for u, v in zip(yn, ks[i])]
            yh = [u + h * bh[i] * v for u, v in zip(yh, ks[i])]
            err = [u + h * (b[i] - bh[i]) * v for u, v in zip(err, ks[i])]
        ctx.check_eq("embedded_state", st.embedded_state, arr(yh))
        ctx.check_eq("error_estimate", st.error_estimate, arr(err))
        ctx.check_eq("advanced_with_main", st.final_state, arr(yn))
        y = yn
    ctx.reach("done")


class Grab(Callback):
    def __init__(self):
        self.got = []

    def after_iteration(self, iteration, time_integration_state, ode, discretization_scheme):
        d = time_integration_state.discretization_state
        self.got.append((list(d.final_state), list(d.embedded_state), list(d.error_estimate)))


def component(ctx, layout, s, kind, nmax):
    """What callbacks see of the embedded scheme during an integration."""
    lay = LAYOUTS[layout]()
    tab = tableau(ctx, s, kind, embedded=True)
    h = ctx.real("h")
    N = ctx.int("N", 1, nmax)
    grab = Grab()
    w = World(ctx, lay, tab, steps=N, step_size=h, compute_callbacks=[grab])
    x = flat_inputs(ctx, lay)
    w.run(x)
    t, y, par = split_inputs(lay, x)
    ctx.check("one per step", len(grab.got) == int(N))
    for f, e, r in grab.got:
        _, yh, _ = rk_step(ctx, lay, tab, t, y, par, h, weights=tab.butcher_adaptive_weights)
        t, y, _ = rk_step(ctx, lay, tab, t, y, par, h)
        ctx.check_eq("final", arr(f), arr(y))
        ctx.check_eq("embedded", arr(e), arr(yh))
        ctx.check_eq("estimate", arr(r), arr([a - b for a, b in zip(y, yh)]))
    ctx.reach("done")


_F = (
    "EmbeddedRungeKuttaMixin.compute_error_estimate",
    "StageOrderedEmbeddedRungeKuttaDiscretization.compute_step",
    "EmbeddedRungeKuttaDiscretizationState.set",
)
_q = [
    dict(s=s, n=n, kind=k, steps=st)
    for s, n, k, st in (
        (1, 2, "dirk", 2), (2, 2, "dirk", 2), (3, 2, "dirk", 2), (3, 1, "erk", 2),
        (4, 2, "dirk", 1), (6, 1, "erk", 1),
    )
]
HARNESSES = [
    Harness(
        direct, quick=_q, thorough=_q + [
            dict(s=7, n=2, kind="dirk", steps=1), dict(s=3, n=3, kind="dirk", steps=3)],
        functions=_F,
        bounds="stages <= 6 (7), state size <= 2 (3), consecutive steps <= 2 (3); all "
        "coefficients, states and step sizes symbolic",
        stubs=("DiscretizedODE: uninterpreted functions",),
    ),
    Harness(
        component,
        quick=[
            dict(layout="scalar_p", s=2, kind="dirk", nmax=3),
            dict(layout="two", s=3, kind="dirk", nmax=2),
        ],
        functions=_F + ("RungeKuttaIntegrator.compute",),
        bounds="N symbolic in 1..3, stages <= 3",
        stubs=("inner OpenMDAO component: uninterpreted functions",),
    ),
]
