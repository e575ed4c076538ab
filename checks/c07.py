"""C07: checkpointing replays every step exactly once, backwards, with its own state."""
from copy import deepcopy

from vlib.run import Harness
from vlib.world import *
from vlib.checkpointing import checkpointer_choice
from rkopenmdao.time_discretization.runge_kutta_discretization_state import (
    EmbeddedRungeKuttaDiscretizationState,
    RungeKuttaDiscretizationState,
)
from rkopenmdao.time_integration_state import TimeIntegrationState

ASSUMPTIONS = [
    "step functions: arbitrary (uninterpreted) functions writing every field of the state",
    "pyrevolve's compiled scheduler runs as it is (its schedule is observed, not encoded)",
]


def _leaves(x, path=""):
    """All arrays of a state, found generically."""
    out = []
    if isinstance(x, np.ndarray):
        return [(path, x)]
    for k in sorted(vars(x)):
        v = getattr(x, k)
        if isinstance(v, np.ndarray) or hasattr(v, "__dict__"):
            out += _leaves(v, path + "." + k)
    return out


def _sizes(layout):
    return dict(
        plain=dict(ode_state_size=1, independent_input_size=1, independent_output_size=0,
                   number_of_stages=1, linearization_point_size=1),
        wide=dict(ode_state_size=2, independent_input_size=0, independent_output_size=1,
                  number_of_stages=2, linearization_point_size=2),
    )[layout]


def _state(ctx, layout, embedded, hist=2):
    cls = (
        EmbeddedRungeKuttaDiscretizationState if embedded else RungeKuttaDiscretizationState
    )
    d = cls(**_sizes(layout))
    z = lambda n: np.array([0.0] * n, dtype=object if ctx.symbolic else float)
    return TimeIntegrationState(d, z(1), z(hist), z(hist))


def _fill(ctx, st, name):
    for p, a in _leaves(st):
        for i in np.ndindex(*a.shape):
            a[i] = ctx.real(f"{name}{p}_{'_'.join(map(str, i))}")


def _snap(st):
    return {p: a.copy() for p, a in _leaves(st)}


class Steps:
    """Uninterpreted step functions that record how they are called."""

    def __init__(self, ctx, fresh=False):
        self.ctx = ctx
        self.log = []
        self.rev = []
        self.fail_at = None
        self.fresh = fresh

    def fwd(self, step, st):
        if self.fail_at is not None and step == self.fail_at:
            self.fail_at = None
            raise om.AnalysisError("planned failure")
        self.log.append(step)
        # every step may depend on everything there is at its start
        key = self.ctx.ufb("D", *[v for _, a in _leaves(st) for v in a.ravel()])
        out = deepcopy(st) if self.fresh else st
        for p, a in _leaves(out):
            if a is (out.discretization_state.independent_inputs):
                continue
            for i in np.ndindex(*a.shape):
                a[i] = self.ctx.ufb(f"S{p}{i}", key)
        return out

    def reverse(self, step, st, pert):
        self.rev.append((step, _snap(st), _snap(pert)))
        key = self.ctx.ufb("E", *[v for _, a in _leaves(pert) for v in a.ravel()])
        out = deepcopy(pert) if self.fresh else pert
        for p, a in _leaves(out):
            for i in np.ndindex(*a.shape):
                a[i] = self.ctx.ufb(f"R{p}{i}", key)
        return out


def _same(ctx, label, a, b):
    for p in a:
        ctx.check_eq(label + p, a[p], b[p])


def _expected(ctx, layout, embedded, init, N):
    """States after each step when nothing but the step function touches them."""
    st = deepcopy(init)
    S = Steps(ctx)
    out = []
    for k in range(1, N + 1):
        S.fwd(k, st)
        out.append(_snap(st))
    return out


def _round(ctx, cp, S, init, pert0, N, cname, layout, embedded, tag, seeds=1):
    """One forward pass and its reverse pass."""
    S.log, S.rev = [], []
    ref = _expected(ctx, layout, embedded, init, N)
    with quiet():
        cp.create_checkpointer()
        res = cp.iterate_forward(deepcopy(init))
    ctx.check(tag + "steps_once_in_order", S.log == list(range(1, N + 1)))
    _same(ctx, tag + "final", _snap(res), ref[-1] if N else _snap(init))
    if cname == "NoCheckpointer":
        try:
            cp.iterate_reverse(deepcopy(pert0))
        except NotImplementedError:
            ctx.reach("refused")
        else:
            ctx.fail("reverse_without_checkpoints_not_refused")
        return
    with quiet():
        out = cp.iterate_reverse(deepcopy(pert0))
    ctx.check(
        tag + "reverse_once_in_order",
        [s for s, _, _ in S.rev] == list(range(N, 0, -1)),
    )
    if [s for s, _, _ in S.rev] != list(range(N, 0, -1)):
        return
    p = deepcopy(pert0)
    R = Steps(ctx)
    for step, st, pt in S.rev:
        _same(ctx, f"{tag}state", st, ref[step - 1])
        _same(ctx, f"{tag}perturbation", pt, _snap(p))
        R.reverse(step, deepcopy(init), p)
    _same(ctx, tag + "result", _snap(out), _snap(p))


def replay(ctx, layout, embedded, Nmax, ncp, family, fresh, fault=False):
    """Forward + reverse, then the same checkpointer again from another state."""
    N = int(ctx.int("N", 0, Nmax))
    st = _state(ctx, layout, embedded)
    pt = _state(ctx, layout, embedded, 0)
    S = Steps(ctx, fresh)
    cls, opts, cname = checkpointer_choice(ctx, family, N, ncp)
    with quiet():
        cp = cls(
            termination_criterion=PredefinedNumberOfSteps(N), run_step_func=S.fwd,
            run_step_jacvec_rev_func=S.reverse, state=st, state_perturbation=pt, **opts
        )
    a, b = deepcopy(st), deepcopy(st)
    _fill(ctx, a, "a")
    _fill(ctx, b, "b")
    pa, pb = deepcopy(pt), deepcopy(pt)
    _fill(ctx, pa, "pa")
    _fill(ctx, pb, "pb")
    if fault and N:
        S.fail_at = int(ctx.int("fail_at", 1, N))
        try:
            with quiet():
                cp.create_checkpointer()
                cp.iterate_forward(deepcopy(b))
        except om.AnalysisError:
            ctx.reach("failed")
        S.fail_at = None
    _round(ctx, cp, S, a, pa, N, cname, layout, embedded, "")
    _round(ctx, cp, S, b, pb, N, cname, layout, embedded, "again_")
    ctx.reach(cname)
    ctx.reach("done")


def until_time(ctx, layout, embedded, Nmax, fresh):
    """Number of steps decided by the simulated time (symbolic step sizes)."""
    from rkopenmdao.checkpoint_interface.all_checkpointer import AllCheckpointer
    from rkopenmdao.checkpoint_interface.no_checkpointer import NoCheckpointer

    st = _state(ctx, layout, embedded)
    pt = _state(ctx, layout, embedded, 0)
    S = Steps(ctx, fresh)
    T = ctx.real("T")
    cname = ctx.choice("cp", ["AllCheckpointer", "NoCheckpointer"])
    cls = dict(AllCheckpointer=AllCheckpointer, NoCheckpointer=NoCheckpointer)[cname]
    incr = [ctx.real(f"dt{k}", positive=True) for k in range(Nmax + 1)]
    orig = S.fwd

    def fwd(step, s):
        if step > Nmax:
            ctx.bound("steps")
        t = s.discretization_state.final_time[0]
        out = orig(step, s)
        out.discretization_state.final_time[0] = t + incr[step - 1]
        return out

    S.fwd = fwd
    with quiet():
        cp = cls(
            termination_criterion=PredefinedFinalTime(T), run_step_func=S.fwd,
            run_step_jacvec_rev_func=S.reverse, state=st, state_perturbation=pt
        )
    a, pa = deepcopy(st), deepcopy(pt)
    _fill(ctx, a, "a")
    _fill(ctx, pa, "pa")
    # number of steps the criterion asks for
    t, N = a.discretization_state.final_time[0], 0
    while N <= Nmax and bool(t < T):
        t = t + incr[N]
        N += 1
    if N > Nmax:
        ctx.bound("steps")
    ref, x = [], deepcopy(a)
    with quiet():
        cp.create_checkpointer()
        res = cp.iterate_forward(deepcopy(a))
    ctx.check("steps_once_in_order", S.log == list(range(1, N + 1)))
    S.log = []
    for k in range(1, N + 1):
        S.fwd(k, x)
        ref.append(_snap(x))
    _same(ctx, "final", _snap(res), ref[-1] if N else _snap(a))
    if cname == "AllCheckpointer":
        out = cp.iterate_reverse(deepcopy(pa))
        ok = [s for s, _, _ in S.rev] == list(range(N, 0, -1))
        ctx.check("reverse_once_in_order", ok)
        if ok:
            p, R = deepcopy(pa), Steps(ctx)
            for step, s_, pt_ in S.rev:
                _same(ctx, "state", s_, ref[step - 1])
                _same(ctx, "perturbation", pt_, _snap(p))
                R.reverse(step, a, p)
            _same(ctx, "result", _snap(out), _snap(p))
    ctx.reach(cname)
    ctx.reach("done")


_F = (
    "AllCheckpointer", "NoCheckpointer", "PyrevolveCheckpointer", "RungeKuttaCheckpoint",
    "RungeKuttaForwardOperator", "RungeKuttaReverseOperator", "TimeIntegrationState",
    "RungeKuttaDiscretizationState", "EmbeddedRungeKuttaDiscretizationState",
)
_q = [
    dict(layout="plain", embedded=False, Nmax=6, ncp=5, family="any", fresh=False),
    dict(layout="plain", embedded=True, Nmax=5, ncp=4, family="any", fresh=True),
    dict(layout="wide", embedded=True, Nmax=4, ncp=3, family="any", fresh=False),
    dict(layout="plain", embedded=False, Nmax=3, ncp=2, family="any", fresh=False, fault=True),
]
_t = [
    dict(layout="plain", embedded=False, Nmax=12, ncp=10, family="any", fresh=False),
    dict(layout="plain", embedded=True, Nmax=9, ncp=9, family="any", fresh=True),
    dict(layout="wide", embedded=True, Nmax=7, ncp=6, family="any", fresh=False),
    dict(layout="wide", embedded=False, Nmax=5, ncp=4, family="any", fresh=True, fault=True),
]
HARNESSES = [
    Harness(
        replay, quick=_q, thorough=_t, functions=_F,
        reach=("done", "refused", "failed", "AllCheckpointer", "SingleLevel", "Memory", "MultiLevel"),
        bounds="0..6 (12) steps, 1..5 (10) checkpoints, plain and embedded states, in-place "
        "and fresh step results, reuse after a complete or a failed pass; the disk revolver "
        "is outside",
        stubs=("step functions: uninterpreted",),
    ),
    Harness(
        until_time,
        quick=[dict(layout="plain", embedded=True, Nmax=4, fresh=False)],
        thorough=[dict(layout="wide", embedded=e, Nmax=7, fresh=e) for e in (True, False)],
        functions=_F + ("PredefinedFinalTime",),
        reach=("done", "AllCheckpointer", "NoCheckpointer"),
        bounds="up to 4 (7) steps of symbolic size until a symbolic final time",
        stubs=("step functions: uninterpreted",),
    ),
]
