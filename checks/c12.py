"""C12: runs stop exactly when their termination criterion says so."""
from vlib.run import Harness
from vlib.world import *
from vlib.layouts import LAYOUTS
from vlib.checkpointing import checkpointer_choice
from rkopenmdao.callback import Callback
from rkopenmdao.termination_criterion import TerminationCriterion
from rkopenmdao.time_integration_state import TimeIntegrationState

ASSUMPTIONS = [
    "real arithmetic: rounding of IEEE doubles is not modelled (whether a sum of steps "
    "reaches the final time exactly)",
]


class Rec(Callback):
    def __init__(self):
        self.log = []

    def before_iteration(self, i, st, ode, sch):
        self.log.append(i)


def number_of_steps(ctx, Nmax, family):
    """Exactly N steps, whatever the step size, in all modes."""
    N = int(ctx.int("N", 0, Nmax))
    lay = LAYOUTS["scalar_p"]()
    tab = tableau(ctx, 1, "erk")
    h = ctx.real("h")
    cls, opts, _ = checkpointer_choice(ctx, family, N, max(N, 1))
    r, f, b = Rec(), Rec(), Rec()
    w = World(ctx, lay, tab, steps=N, step_size=h, checkpointer=cls, checkpoint_options=opts,
              compute_callbacks=[r], compute_jacvec_product_fwd_callbacks=[f],
              compute_jacvec_product_rev_callbacks=[b])
    x = flat_inputs(ctx, lay)
    y = w.run(x)
    ctx.check("compute_steps", r.log == list(range(1, N + 1)))
    ctx.check_eq("final", arr(y), arr(run_reference(ctx, lay, tab, x, h, N)), scale=1e3)
    w.fwd(flat_inputs(ctx, lay, "v"))
    ctx.check("fwd_steps", f.log == list(range(1, N + 1)))
    w.rev([ctx.real(f"u{i}") for i in range(w.n_out())])
    ctx.check("rev_steps", b.log == list(range(N, 0, -1)))
    ctx.reach(str(N))
    ctx.reach("done")


def final_time(ctx, Kmax, sign):
    """Fixed steps: integrate until the final time is reached for the first time."""
    from rkopenmdao.checkpoint_interface.all_checkpointer import AllCheckpointer

    lay = LAYOUTS["scalar"]()
    tab = tableau(ctx, 1, "erk")
    h = ctx.real("h", positive=True)
    T = ctx.real("T")
    x = flat_inputs(ctx, lay)
    k, t = 0, x[0]
    while bool(t < T):
        k += 1
        t = t + h
        if k > Kmax:
            ctx.bound("steps")
    r, f, b = Rec(), Rec(), Rec()
    w = World(ctx, lay, tab, step_size=h, final_time=T, checkpointer=AllCheckpointer,
              compute_callbacks=[r], compute_jacvec_product_fwd_callbacks=[f],
              compute_jacvec_product_rev_callbacks=[b])
    y = w.run(x)
    ctx.check("steps", r.log == list(range(1, k + 1)))
    ctx.check_eq("final", arr(y), arr(run_reference(ctx, lay, tab, x, h, k)), scale=1e3)
    w.fwd(flat_inputs(ctx, lay, "v"))
    ctx.check("fwd_steps", f.log == list(range(1, k + 1)))
    w.rev([ctx.real(f"u{i}") for i in range(w.n_out())])
    ctx.check("rev_steps", b.log == list(range(k, 0, -1)))
    ctx.reach(str(k))
    ctx.reach("done")


def custom(ctx, Kmax, checkpointer):
    """Any criterion: asked with the number of finished steps and their state, obeyed."""
    from rkopenmdao.checkpoint_interface.all_checkpointer import AllCheckpointer
    from rkopenmdao.checkpoint_interface.no_checkpointer import NoCheckpointer

    lay = LAYOUTS["scalar"]()
    tab = tableau(ctx, 1, "erk")
    h = ctx.real("h")
    asked = []

    class Any_(TerminationCriterion):
        def is_iteration_finished(self, iteration, time_integration_state):
            d = time_integration_state.discretization_state
            asked.append((iteration, d.final_time[0], list(d.final_state)))
            if iteration >= Kmax:
                return True
            return bool(ctx.bool(f"stop{iteration}"))

    cls = dict(all=AllCheckpointer, none=NoCheckpointer)[checkpointer]
    r, f, b = Rec(), Rec(), Rec()
    w = World(ctx, lay, tab, criterion=Any_(), step_size=h, checkpointer=cls,
              compute_callbacks=[r], compute_jacvec_product_fwd_callbacks=[f],
              compute_jacvec_product_rev_callbacks=[b])
    x = flat_inputs(ctx, lay)
    y = w.run(x)
    n = max(a[0] for a in asked)
    ctx.check("steps", r.log == list(range(1, n + 1)))
    for i, t, s in asked:
        ref = run_reference(ctx, lay, tab, x, h, i)
        ctx.check_eq("asked_with_current_state", arr([t] + s), arr(ref), scale=1e3)
    ctx.check("asked_after_every_step", set(a[0] for a in asked) == set(range(n + 1)))
    ctx.check_eq("final", arr(y), arr(run_reference(ctx, lay, tab, x, h, n)), scale=1e3)
    asked.clear()
    w.fwd(flat_inputs(ctx, lay, "v"))
    ctx.check("fwd_steps", f.log == list(range(1, n + 1)))
    for i, t, s in asked:
        ref = run_reference(ctx, lay, tab, x, h, i)
        ctx.check_eq("fwd_asked_with_current_state", arr([t] + s), arr(ref), scale=1e3)
    if checkpointer == "all":
        w.rev([ctx.real(f"u{i}") for i in range(w.n_out())])
        ctx.check("rev_steps", b.log == list(range(n, 0, -1)))
    ctx.reach("done")


def criteria(ctx):
    """The bundled criteria on any state."""
    lay = LAYOUTS["scalar"]()
    N = ctx.int("N", 0, 1000)
    k = ctx.int("k", 0, 1000)
    t, T = ctx.real("t"), ctx.real("T")

    class D:
        final_time = np.array([t], dtype=object if ctx.symbolic else float)
        start_time = np.array([ctx.real("other")], dtype=object if ctx.symbolic else float)

    class S:
        discretization_state = D()

    done = bool(PredefinedNumberOfSteps(N).is_iteration_finished(k, S()))
    ctx.check("number_of_steps", done == bool(k >= N))
    c = PredefinedFinalTime(T)
    done = bool(c.is_iteration_finished(k, S()))
    ctx.check("final_time", done == bool(t >= T))
    ctx.check_eq("remaining", c.remaining_time(t), T - t)
    ctx.reach("done")


_F = ("PredefinedNumberOfSteps", "PredefinedFinalTime", "AllCheckpointer.iterate_forward",
      "NoCheckpointer.iterate_forward", "PyrevolveCheckpointer.iterate_forward",
      "RungeKuttaIntegrator._compute_jacvec_fwd_run_steps")
HARNESSES = [
    Harness(
        number_of_steps, quick=[dict(Nmax=4, family="everything")],
        thorough=[dict(Nmax=8, family="everything")], functions=_F,
        reach=("done", "0", "1", "4"), bounds="0..4 (8) steps, every checkpointer",
        stubs=("inner OpenMDAO component: uninterpreted functions",),
    ),
    Harness(
        final_time, quick=[dict(Kmax=4, sign=1)], thorough=[dict(Kmax=9, sign=1)],
        functions=_F, reach=("done", "0", "4"), bounds="up to 4 (9) steps, symbolic times",
        stubs=("inner OpenMDAO component: uninterpreted functions",),
    ),
    Harness(
        custom, quick=[dict(Kmax=3, checkpointer=c) for c in ("all", "none")],
        thorough=[dict(Kmax=6, checkpointer=c) for c in ("all", "none")],
        functions=_F, bounds="up to 3 (6) steps, arbitrary decisions",
        stubs=("termination criterion: arbitrary", "inner OpenMDAO component: uninterpreted functions"),
    ),
    Harness(criteria, functions=_F[:2], bounds="any count up to 1000, any times"),
]
