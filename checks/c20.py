"""C20: callbacks see every step once, in order, with that step's state."""
import contextlib
import os
import re

from vlib.run import Harness
from vlib.layouts import LAYOUTS
from vlib.history import *
from rkopenmdao.callback import Callback

ASSUMPTIONS = [
    "real arithmetic: rounding of IEEE doubles is not modelled",
    "callbacks read the objects they get, they do not change them",
    "a reverse product may repeat the whole integration first (it has to, if it is asked "
    "for other inputs); the callbacks of compute then see that integration",
]

MODES = ("compute", "fwd", "rev")
OPTION = {
    "compute": "compute_callbacks",
    "fwd": "compute_jacvec_product_fwd_callbacks",
    "rev": "compute_jacvec_product_rev_callbacks",
}


class Recorder(Callback):
    def __init__(self, log, mode, k):
        self.log, self.mode, self.k = log, mode, k

    def _note(self, when, iteration, st, ode, scheme):
        d = st.discretization_state
        self.log.append(dict(
            mode=self.mode, k=self.k, when=when, step=iteration, ode=ode, scheme=scheme,
            t=d.final_time[0], y=list(d.final_state), t0=d.start_time[0],
            y0=list(d.start_state),
            h=st.step_size_history[0] if len(st.step_size_history) else None,
        ))

    def before_iteration(self, iteration, time_integration_state, ode, discretization_scheme):
        self._note("before", iteration, time_integration_state, ode, discretization_scheme)

    def after_iteration(self, iteration, time_integration_state, ode, discretization_scheme):
        self._note("after", iteration, time_integration_state, ode, discretization_scheme)


def callback_lists(log, counts):
    return {
        OPTION[m]: [Recorder(log, m, k) for k in range(c)] for m, c in counts.items()
    }


def expected_calls(mode, count, n):
    steps = range(n, 0, -1) if mode == "rev" else range(1, n + 1)
    return [
        (mode, k, when, i) for i in steps for when in ("before", "after")
        for k in range(count)
    ]


def check_pass(ctx, label, entries, mode, count, n, traj, hs):
    """entries is what the callbacks of one pass over all steps have seen; traj[i] is
    (time, state) after step i."""
    got = [(e["mode"], e["k"], e["when"], e["step"]) for e in entries]
    ok = got == expected_calls(mode, count, n)
    ctx.check(label + "_calls", ok)
    if not ok:
        return
    for e in entries:
        i = e["step"]
        if mode == "rev":
            t, y = traj[i]
            t0, y0 = traj[i - 1]
            ctx.check_eq(label + "_start", arr([e["t0"], *e["y0"]]), arr([t0, *y0]))
            ctx.check_eq(label + "_size", e["h"], hs[i - 1])
        elif e["when"] == "before":
            t, y = traj[i - 1]
        else:
            t, y = traj[i]
            t0, y0 = traj[i - 1]
            ctx.check_eq(label + "_start", arr([e["t0"], *e["y0"]]), arr([t0, *y0]))
            ctx.check_eq(label + "_size", e["h"], hs[i - 1])
        ctx.check_eq(label + "_state", arr([e["t"], *e["y"]]), arr([t, *y]))


def trajectory(ctx, lay, tab, x, h, n):
    t, y, par = split_inputs(lay, x)
    r = [(t, y)]
    for _ in range(n):
        t, y, _ = rk_step(ctx, lay, tab, t, y, par, h)
        r.append((t, y))
    return r


def check_rev(ctx, label, log, counts, n, traj, hs):
    """An integration before the steps back is allowed, interleaving is not."""
    first = [e for e in log if e["mode"] == "compute"]
    if first and counts["compute"]:
        k = len(first)
        ctx.check(label + "_order", all(e["mode"] == "compute" for e in log[:k]))
        check_pass(ctx, label + "_again", first, "compute", counts["compute"], n, traj, hs)
        log = [e for e in log if e["mode"] != "compute"]
    check_pass(ctx, label, log, "rev", counts["rev"], n, traj, hs)


def calls(ctx, layout, s, nmax, family, between, embedded=False, most=2):
    """Integration, forward product, reverse product, in one history."""
    lay = LAYOUTS[layout]()
    tab = tableau(ctx, s, "dirk", embedded=embedded)
    h = ctx.real("h")
    N = ctx.int("N", 0, nmax)
    n = int(N)
    counts = {m: int(ctx.int("n_" + m, 0, most)) for m in MODES}
    log = []
    cls, opts, name = checkpointer_choice(ctx, family, n, nmax)
    kw = dict(steps=n, step_size=h, checkpointer=cls, checkpoint_options=opts)
    w = World(ctx, lay, tab, **kw, **callback_lists(log, counts))
    plain = World(ctx, lay, tab, **kw)
    x = flat_inputs(ctx, lay, "x")
    traj = trajectory(ctx, lay, tab, x, h, n)
    hs = [h] * n

    def fresh():
        r = list(log)
        log.clear()
        return r

    ctx.check("setup_silent", not log)
    for v in (w, plain):
        v.comp_set(x)
    y = w.comp_run()
    check_pass(ctx, "compute", fresh(), "compute", counts["compute"], n, traj, hs)
    ctx.check_eq("outputs", arr(y), arr(plain.comp_run()))
    if between == "fwd":
        d = flat_inputs(ctx, lay, "d")
        got = w.comp_fwd(d)
        check_pass(ctx, "fwd", fresh(), "fwd", counts["fwd"], n, traj, hs)
        ctx.check_eq("fwd_product", arr(got), arr(plain.comp_fwd(d)))
    elif between == "other":
        z = flat_inputs(ctx, lay, "z")
        for v in (w, plain):
            v.comp_set(z)
        traj = trajectory(ctx, lay, tab, z, h, n)
    if n and name != "NoCheckpointer":
        u = [ctx.real(f"u{i}") for i in range(w.n_out())]
        got = w.comp_rev(u)
        check_rev(ctx, "rev", fresh(), counts, n, traj, hs)
        ctx.check_eq("rev_product", arr(got), arr(plain.comp_rev(u)))
        ctx.reach(name)
    elif between == "other":
        w.comp_run()
        check_pass(ctx, "compute2", fresh(), "compute", counts["compute"], n, traj, hs)
    got = w.comp_run()
    check_pass(ctx, "compute3", fresh(), "compute", counts["compute"], n, traj, hs)
    ctx.reach(f"N={n}")
    ctx.reach("done")


def after_failure(ctx, layout, s, n, family, failing):
    """A call that fails half way does not change what the callbacks see of later ones."""
    log, counts = [], dict(compute=1, fwd=1, rev=1)
    H = History(ctx, layout, s, "dirk", n, family, **callback_lists(log, counts))
    H.do("run", 0, "a")
    H.do(failing, 1, ctx.choice("failing_point", ["a", "b"]))
    log.clear()
    x = H.point("b")
    traj = trajectory(ctx, H.lay, H.tab, x, H.h, n)
    H.w.comp_set(x)
    last = ctx.choice("last", ["run", "fwd", "rev"])
    if last == "run":
        H.w.comp_run()
        check_pass(ctx, "compute", log, "compute", 1, n, traj, [H.h] * n)
    elif last == "fwd":
        H.w.comp_fwd(H.seed_in("d"))
        check_pass(ctx, "fwd", log, "fwd", 1, n, traj, [H.h] * n)
    else:
        H.w.comp_rev(H.seed_out("u"))
        check_rev(ctx, "rev", log, counts, n, traj, [H.h] * n)
        if any(e["mode"] == "compute" for e in log):
            ctx.reach("again")
    ctx.reach("done")


def context(ctx, s, n):
    """The ODE and the scheme handed to the callbacks are those of the integration."""
    lay = LAYOUTS["two"]()
    tab = tableau(ctx, s, "dirk")
    log = []
    cls, opts, _ = checkpointer_choice(ctx, "everything", n, n)
    w = World(ctx, lay, tab, steps=n, step_size=ctx.real("h"), checkpointer=cls,
              checkpoint_options=opts, **callback_lists(log, dict(compute=1, fwd=1, rev=1)))
    w.comp_set(flat_inputs(ctx, lay, "x"))
    w.comp_run()
    w.comp_fwd(flat_inputs(ctx, lay, "d"))
    w.comp_rev([ctx.real(f"u{i}") for i in range(w.n_out())])
    for e in log:
        names = [q.name for q in e["ode"].time_integration_metadata.time_integration_quantity_list]
        ctx.check("ode", names == ["u", "v"] and e["ode"].get_state_size() == lay.n)
        ctx.check("scheme", e["scheme"].butcher_tableau is tab)
    ctx.check("modes", {e["mode"] for e in log} == set(MODES))
    ctx.reach("done")


def adaptive(ctx, layout, steps, rejections, family):
    """Rejected attempts are not steps: the callbacks see accepted ones only."""
    from rkopenmdao.error_controller import (
        ErrorController, ErrorControllerConfig, ErrorControllerStatus)
    from rkopenmdao.error_measurer import ErrorMeasurer

    ctx.merge = True
    lay = LAYOUTS[layout]()
    tab = tableau(ctx, 1, "erk", embedded=True)
    tol, h0 = ctx.real("tol", positive=True), ctx.real("h0", positive=True)
    left = [rejections]
    accepted = []

    class Free(ErrorMeasurer):
        def get_measure(self, state_error_estimate, state, ode):
            return abs(ctx.uf("m", *state_error_estimate.stage_state, *state.stage_state))

    class Any_(ErrorController):
        def __call__(self, *, error_measure, delta_t, remaining_time, error_history,
                     step_size_history):
            a = [error_measure, delta_t]
            acc = bool(ctx.ufb("acc", *a) > 0)
            if acc:
                accepted.append((delta_t, error_measure))
            else:
                if not left[0]:
                    ctx.bound("rejections")
                left[0] -= 1
                ctx.reach("rejected")
            return ErrorControllerStatus(ctx.ufb("size", *a), acc)

    def one(p, config=ErrorControllerConfig(), base=None, **kw):
        return Any_(alpha=1.0, config=config)

    log = []
    counts = dict(compute=1, fwd=1, rev=1)
    cls, opts, name = checkpointer_choice(ctx, family, steps, steps)
    w = World(
        ctx, lay, tab, steps=steps, step_size=h0, adaptive=True, error_measurer=Free(),
        error_controller=[one],
        error_controller_options=dict(config=ErrorControllerConfig(tol=tol, max_iter=9)),
        checkpointer=cls, checkpoint_options=opts, **callback_lists(log, counts),
    )
    x = flat_inputs(ctx, lay, "x")
    w.comp_set(x)

    def one_pass(f, *a):
        left[0] = rejections
        accepted.clear()
        log.clear()
        f(*a)
        t, y, par = split_inputs(lay, x)
        traj = [(t, y)]
        for h, _ in accepted[:steps]:
            t, y, _ = rk_step(ctx, lay, tab, t, y, par, h)
            traj.append((t, y))
        return traj, [h for h, _ in accepted[:steps]]

    traj, hs = one_pass(w.comp_run)
    ctx.check("accepted", len(hs) == steps)
    check_pass(ctx, "compute", list(log), "compute", 1, steps, traj, hs)
    accepted_run = traj, hs
    traj, hs = one_pass(w.comp_fwd, flat_inputs(ctx, lay, "d"))
    check_pass(ctx, "fwd", list(log), "fwd", 1, steps, traj, hs)
    one_pass(w.comp_run)
    left[0] = 10**6
    log.clear()
    w.comp_rev([ctx.real(f"u{i}") for i in range(w.n_out())])
    check_rev(ctx, "rev", list(log), counts, steps, *accepted_run)
    ctx.reach(name)
    ctx.reach("done")


def default_logging(ctx, nmax):
    """Without given callbacks the steps are logged and timed; an empty list or only
    logging for one of the modes stays what it is."""
    from rkopenmdao.checkpoint_interface.all_checkpointer import AllCheckpointer
    import vlib.world as world

    lay = LAYOUTS["scalar_p"]()
    n = int(ctx.int("N", 1, nmax))
    given = {m: bool(ctx.bool("given_" + m)) for m in MODES}
    kw = {OPTION[m]: [] if given[m] else None for m in MODES}
    w = World(ctx, lay, tableau(ctx, 1, "dirk"), steps=n, step_size=ctx.real("h"),
              checkpointer=AllCheckpointer, **kw)
    w.comp_set(flat_inputs(ctx, lay, "x"))
    path = os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), f"log.{os.getpid()}")

    def lines(f, *a):
        real = world.quiet

        @contextlib.contextmanager
        def to_file():
            with open(path, "w") as o, contextlib.redirect_stdout(o):
                yield

        world.quiet = to_file
        try:
            f(*a)
        finally:
            world.quiet = real
        with open(path) as o:
            r = o.read().splitlines()
        os.unlink(path)
        return [
            l for l in r
            if l.startswith(("Starting step", "Finishing step", "Iteration took"))
        ]

    def want(mode, fn):
        if given[mode]:
            return []
        r = []
        for i in range(n, 0, -1) if mode == "rev" else range(1, n + 1):
            r += [f"Starting step <{i}> of {fn}.", f"Finishing step <{i}> of {fn}.",
                  "Iteration took"]
        return r

    def check(label, got, exp):
        got = [re.sub(r"^Iteration took -?[0-9.e-]+ seconds\.$", "Iteration took", l)
               for l in got]
        ctx.check(label, got == exp)

    check("compute", lines(w.comp_run), want("compute", "compute"))
    u = [ctx.real(f"u{i}") for i in range(w.n_out())]
    got = lines(w.comp_rev, u)
    exp = want("rev", "compute_jacvec_product_rev")
    both = want("compute", "compute") + exp
    check("rev", got, exp if len(got) == len(exp) else both)
    check("fwd", lines(w.comp_fwd, flat_inputs(ctx, lay, "d")),
          want("fwd", "compute_jacvec_product_fwd"))
    ctx.reach("done")


_F = (
    "RungeKuttaIntegrator._run_step", "RungeKuttaIntegrator._run_step_jacvec_fwd",
    "RungeKuttaIntegrator._run_step_jacvec_rev", "RungeKuttaIntegrator.compute",
    "RungeKuttaIntegrator.compute_jacvec_product", "RungeKuttaIntegrator.setup",
    "AllCheckpointer", "PyrevolveCheckpointer",
)
_q = [
    dict(layout="scalar_p", s=1, nmax=2, family="everything", between="nothing", most=1),
    dict(layout="scalar_p", s=1, nmax=4, family="revolve", between="nothing", most=1),
    dict(layout="scalar_p", s=1, nmax=2, family="any", between="fwd"),
    dict(layout="scalar_p", s=1, nmax=2, family="any", between="other", most=1),
    dict(layout="two", s=2, nmax=1, family="store", between="fwd"),
    dict(layout="output_only", s=1, nmax=2, family="store", between="fwd", embedded=True),
]
_t = _q + [
    dict(layout="scalar_p", s=1, nmax=6, family="revolve", between="nothing", most=1),
    dict(layout="scalar_p", s=2, nmax=3, family="any", between="fwd", most=1),
    dict(layout="three", s=1, nmax=2, family="any", between="other", most=1),
    dict(layout="matrix", s=1, nmax=2, family="everything", between="fwd"),
]
HARNESSES = [
    Harness(
        calls, quick=_q, thorough=_t, functions=_F, opts=dict(max_paths=4000),
        reach=("done", "N=0", "N=1", "N=2", "AllCheckpointer", "SingleLevel", "Memory"),
        bounds="N symbolic in 0..2 (quick), 0..4 (revolve), 0..6 (thorough); 0..2 "
        "callbacks per mode; every checkpointer and number of checkpoints",
        stubs=("inner OpenMDAO component: uninterpreted functions",),
    ),
    Harness(
        after_failure,
        quick=[dict(layout="scalar_p", s=1, n=2, family="everything", failing=f)
               for f in ("fail_run", "fail_fwd", "fail_rev")],
        thorough=[dict(layout="two", s=2, n=2, family="everything", failing=f)
                  for f in ("fail_run", "fail_fwd", "fail_rev")]
        + [dict(layout="scalar_p", s=1, n=4, family="revolve", failing="fail_rev")],
        functions=_F, reach=("done", "failed", "again"), opts=dict(max_paths=4000),
        bounds="2 (4) steps, failing evaluation symbolic, two points, every checkpointer",
        stubs=("inner OpenMDAO component: uninterpreted functions, planned failures",),
    ),
    Harness(
        context, quick=[dict(s=1, n=2)], thorough=[dict(s=2, n=3)], functions=_F,
        bounds="2 (3) steps, one callback per mode",
        stubs=("inner OpenMDAO component: uninterpreted functions",),
    ),
    Harness(
        adaptive,
        quick=[dict(layout="scalar_p", steps=2, rejections=1, family="everything")],
        thorough=[dict(layout="scalar_p", steps=2, rejections=2, family="everything"),
                  dict(layout="two", steps=2, rejections=1, family="all"),
                  dict(layout="scalar_p", steps=3, rejections=1, family="all")],
        functions=_F + ("RungeKuttaIntegrator._iterate_on_step",),
        reach=("done", "rejected", "AllCheckpointer", "SingleLevel"),
        bounds="2 (3) accepted steps, 1 (2) rejections per pass, any controller and measure",
        stubs=("inner OpenMDAO component, controller and measure: uninterpreted",),
    ),
    Harness(
        default_logging, quick=[dict(nmax=2)], thorough=[dict(nmax=4)],
        functions=_F + ("IterationLogging", "WallClockMeasurement"),
        bounds="N symbolic in 1..2 (4), every combination of default and given lists",
        stubs=("inner OpenMDAO component: uninterpreted functions",),
    ),
]
