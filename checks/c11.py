"""C11: adaptive runs: rejected attempts leave no trace, the trajectory is the accepted one."""
from vlib.run import Harness
from vlib.world import *
from vlib.control import *
from vlib.layouts import LAYOUTS
from rkopenmdao.callback import Callback
from rkopenmdao.error_controller import ErrorControllerStatus
from rkopenmdao.error_measurer import ErrorMeasurer

ASSUMPTIONS = [
    "real arithmetic: rounding of IEEE doubles is not modelled",
    "ODE right hand side: arbitrary (uninterpreted) smooth deterministic function",
    "controller and error measure: arbitrary deterministic (any decision, any suggestion)",
    "derivatives: step sizes and decisions are held fixed (they are not differentiated)",
]


class Free(ErrorMeasurer):
    """Any function of error estimate and state."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.seen = []

    def get_measure(self, state_error_estimate, state, ode):
        d, y = list(state_error_estimate.stage_state), list(state.stage_state)
        self.seen.append((d, y))
        return self.ctx.uf("measure", *d, *y)


class Script:
    """Decisions of an arbitrary controller, by number of the attempt."""

    def __init__(self, ctx, steps, rejections):
        self.ctx, self.steps, self.rejections = ctx, steps, rejections

    def accept(self, k):
        return bool(self.ctx.bool(f"accept{k}")) if k not in self.memo() else self.memo()[k]

    def memo(self):
        if not hasattr(self, "_memo"):
            self._memo = {}
        return self._memo

    def rewind(self):
        """Before each integration: the decisions are a function of the attempt."""
        self.controller.k = 0

    def __call__(self, k):
        m = self.memo()
        if k not in m:
            rej = sum(1 for v in m.values() if not v)
            m[k] = True if rej >= self.rejections else bool(self.ctx.bool(f"accept{k}"))
        return m[k], self.ctx.real(f"size{k + 1}")


def _controller(script, log):
    class Any_(ErrorController):
        def __call__(self, *, error_measure, delta_t, remaining_time, error_history,
                     step_size_history):
            acc, size = script(self.k)
            self.k += 1
            log.append(
                dict(e=error_measure, dt=delta_t, rem=remaining_time, eh=list(error_history),
                     hh=list(step_size_history), acc=acc)
            )
            return ErrorControllerStatus(size, acc)

    def factory(p, config=ErrorControllerConfig(), base=None):
        c = Any_(alpha=1.0, config=config)
        c.k = 0
        script.controller = c
        return c

    return factory


def _reference(ctx, lay, tab, x, script, h0, steps, tol, T=None):
    """The accepted trajectory and what controller and measurer should have seen."""
    t, y, par = split_inputs(lay, x)
    h, k = h0, 0
    eh, hh = [tol, tol], [0.0, 0.0]
    calls, seen, traj = [], [], []
    n = 0
    while (n < steps) if T is None else bool(t < T):
        if n >= steps:
            return None
        while True:
            tn, yn, ks = rk_step(ctx, lay, tab, t, y, par, h)
            _, yh, _ = rk_step(ctx, lay, tab, t, y, par, h, weights=tab.butcher_adaptive_weights)
            d = [a - b for a, b in zip(yn, yh)]
            seen.append((d, yn))
            e = ctx.uf("measure", *d, *yn)
            acc, size = script(k)
            k += 1
            calls.append(dict(e=e, dt=h, rem=np.inf if T is None else T - tn, eh=list(eh),
                              hh=list(hh), acc=acc))
            if acc:
                eh, hh = [e, eh[0]], [h, hh[0]]
                t, y, h = tn, yn, size
                traj.append((t, list(y), list(eh), list(hh), h))
                break
            h = size
        n += 1
    return t, y, calls, seen, traj


def _build(ctx, layout, s, kind, steps, rejections, crit, **kw):
    lay = LAYOUTS[layout]()
    tab = tableau(ctx, s, kind, embedded=True)
    tol = ctx.real("tol", positive=True)
    h0 = ctx.real("h0")
    T = ctx.real("T") if crit == "time" else None
    script = Script(ctx, steps, rejections)
    log, m = [], Free(ctx)
    states = []

    class Rec(Callback):
        def after_iteration(self, i, st, ode, sch):
            d = st.discretization_state
            if T is not None and i >= steps and bool(d.final_time[0] < T):
                ctx.bound("steps")
            states.append((i, d.final_time[0], list(d.final_state), list(st.error_history),
                           list(st.step_size_history), st.step_size_suggestion[0],
                           d.start_time[0], list(d.start_state)))

    w = World(
        ctx, lay, tab, steps=steps, step_size=h0, adaptive=True, final_time=T,
        error_measurer=m, error_controller=[_controller(script, log)],
        error_controller_options=dict(config=ErrorControllerConfig(tol=tol)),
        compute_callbacks=[Rec()], **kw
    )
    return lay, tab, tol, h0, T, script, log, m, states, w


def trajectory(ctx, layout, s, kind, steps, rejections, crit):
    lay, tab, tol, h0, T, script, log, m, states, w = _build(
        ctx, layout, s, kind, steps, rejections, crit
    )
    x = flat_inputs(ctx, lay)
    y = w.run(x)
    ref = _reference(ctx, lay, tab, x, script, h0, steps, tol, T)
    if ref is None:
        ctx.bound("steps")
    t, yr, calls, seen, traj = ref
    got = log
    ctx.check("attempts", len(got) == len(calls))
    ctx.check("steps", [z[0] for z in states] == list(range(1, len(traj) + 1)))
    if len(got) != len(calls) or len(states) != len(traj):
        return
    ctx.check_eq("final", arr(y), arr([t] + yr), scale=1e3)
    for c, r in zip(got, calls):
        for k in ("e", "dt", "rem"):
            ctx.check_eq("controller_" + k, c[k], r[k], scale=1e3)
        ctx.check_eq("controller_error_history", arr(c["eh"]), arr(r["eh"]), scale=1e3)
        ctx.check_eq("controller_step_history", arr(c["hh"]), arr(r["hh"]), scale=1e3)
    for a, b in zip(m.seen, seen):
        ctx.check_eq("measured_estimate", arr(a[0]), arr(b[0]), scale=1e3)
        ctx.check_eq("measured_state", arr(a[1]), arr(b[1]), scale=1e3)
    prev = (x[0], list(x[1 : 1 + lay.n]))
    for z, r in zip(states, traj):
        ctx.check_eq("step_time", z[1], r[0], scale=1e3)
        ctx.check_eq("step_state", arr(z[2]), arr(r[1]), scale=1e3)
        ctx.check_eq("step_error_history", arr(z[3]), arr(r[2]), scale=1e3)
        ctx.check_eq("step_size_history", arr(z[4]), arr(r[3]), scale=1e3)
        ctx.check_eq("step_suggestion", z[5], r[4], scale=1e3)
        ctx.check_eq("step_start_time", z[6], prev[0], scale=1e3)
        ctx.check_eq("step_start_state", arr(z[7]), arr(prev[1]), scale=1e3)
        prev = (r[0], r[1])
    if len(calls) > len(traj):
        ctx.reach("rejected")
    ctx.reach("done")


def derivatives(ctx, layout, s, kind, steps, rejections, order):
    """Products of an adaptive run: derivative of the accepted trajectory."""
    from rkopenmdao.checkpoint_interface.all_checkpointer import AllCheckpointer
    from rkopenmdao.checkpoint_interface.pyrevolve_checkpointer import PyrevolveCheckpointer

    if order == "revolve":
        # recomputation restarts in the middle of a run: the controller must be a function
        # of what it is given, here of the step size only
        return
    lay, tab, tol, h0, T, script, log, m, states, w = _build(
        ctx, layout, s, kind, steps, rejections, "steps", checkpointer=AllCheckpointer
    )
    x = flat_inputs(ctx, lay)
    v = flat_inputs(ctx, lay, "v")
    u = [ctx.real(f"u{i}") for i in range(w.n_out())]
    def frozen(z):
        t, y, par = split_inputs(lay, z)
        h, k, n = h0, 0, 0
        while n < steps:
            acc, size = script(k)
            k += 1
            if acc:
                t, y, _ = rk_step(ctx, lay, tab, t, y, par, h)
                n += 1
            h = size
        return [t] + list(y)
    if order == "run_first":
        w.run(x)
    else:
        w.comp_set(x)
    exact = ctx.derivative(frozen, x, v)
    if order == "run_first":
        script.rewind()
        f = w.fwd(v)
        script.rewind()
        g = w.rev(u)
    else:
        w.comp_set(x)
        script.rewind()
        f = w.comp_fwd(v)
        script.rewind()
        g = w.comp_rev(u)
    ctx.check_eq("fwd", arr(f), arr(exact), scale=1e3)
    ctx.check_eq("rev", dot(exact, u), dot(v, g), scale=1e3)
    if any(not a for a in script.memo().values()):
        ctx.reach("rejected")
    ctx.reach("done")


_F = ("RungeKuttaIntegrator._iterate_on_step", "RungeKuttaIntegrator._run_step",
      "RungeKuttaIntegrator._reset_error_control", "RungeKuttaIntegrator._get_error_measure",
      "RungeKuttaIntegrator._run_step_jacvec_fwd", "RungeKuttaIntegrator._run_step_jacvec_rev",
      "StageOrderedEmbeddedRungeKuttaDiscretization", "TimeIntegrationState.set")
_q = [
    dict(layout="scalar_p", s=1, kind="dirk", steps=3, rejections=2, crit="steps"),
    dict(layout="scalar_p", s=2, kind="erk", steps=2, rejections=2, crit="steps"),
    dict(layout="scalar", s=1, kind="dirk", steps=2, rejections=2, crit="time"),
    dict(layout="output_only", s=1, kind="dirk", steps=2, rejections=1, crit="steps"),
    dict(layout="two", s=1, kind="dirk", steps=2, rejections=1, crit="time"),
]
_t = [
    dict(layout="scalar_p", s=1, kind="dirk", steps=4, rejections=3, crit="steps"),
    dict(layout="scalar_p", s=2, kind="dirk", steps=3, rejections=2, crit="steps"),
    dict(layout="scalar", s=1, kind="dirk", steps=4, rejections=2, crit="time"),
    dict(layout="three", s=1, kind="dirk", steps=2, rejections=2, crit="steps"),
    dict(layout="two", s=2, kind="dirk", steps=2, rejections=2, crit="time"),
]
_dq = [
    dict(layout="scalar_p", s=1, kind="dirk", steps=2, rejections=1, order=o)
    for o in ("run_first", "direct")
] + [dict(layout="two", s=1, kind="dirk", steps=2, rejections=1, order="direct")]
HARNESSES = [
    Harness(
        trajectory, quick=_q, thorough=_q + _t, functions=_F, reach=("done", "rejected"),
        opts=dict(max_paths=60000),
        bounds="up to 3 (4) accepted steps with up to 2 (3) rejected attempts at any point, "
        "free suggestions; fixed number of steps or symbolic final time",
        stubs=("controller, error measure: arbitrary", "inner OpenMDAO component: uninterpreted functions"),
    ),
    Harness(
        derivatives, quick=_dq,
        thorough=_dq + [
            dict(layout="scalar_p", s=2, kind="dirk", steps=2, rejections=2, order="run_first"),
            dict(layout="scalar_p", s=1, kind="dirk", steps=3, rejections=2, order="direct"),
        ],
        functions=_F, reach=("done", "rejected"), opts=dict(max_paths=60000),
        bounds="2 (3) steps with 1 (2) rejected attempts, all-checkpointer",
        stubs=("controller, error measure: arbitrary", "inner OpenMDAO component: uninterpreted functions"),
    ),
]
