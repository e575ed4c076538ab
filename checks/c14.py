"""C14: states are copied and serialised completely and independently."""
import copy

from vlib.run import Harness
from vlib.world import *
from vlib.sym_ode import *
from rkopenmdao.time_discretization.runge_kutta_discretization_state import (
    EmbeddedRungeKuttaDiscretizationState, RungeKuttaDiscretizationState,
)
from rkopenmdao.time_integration_state import TimeIntegrationState

ASSUMPTIONS = ["values are arbitrary reals"]


def leaves(o, path=""):
    """All arrays of a state, by the path of attributes leading there."""
    if isinstance(o, np.ndarray):
        return {path: o}
    if isinstance(o, dict):
        items = o.items()
    elif hasattr(o, "__dict__"):
        items = vars(o).items()
    else:
        return {path: o}
    r = {}
    for k, v in items:
        r.update(leaves(v, f"{path}.{k}"))
    return r


def fill(ctx, state, name):
    for k, v in leaves(state).items():
        if isinstance(v, np.ndarray):
            v[...] = ctx.reals(name + k.replace(".", "_"), *v.shape)
    return state


def snapshot(state):
    return {k: np.array(v, dtype=object, copy=True) if isinstance(v, np.ndarray) else v
            for k, v in leaves(state).items()}


def make(ctx, kind, sizes, name):
    n, p, o, s, l = sizes
    cls = EmbeddedRungeKuttaDiscretizationState if "embedded" in kind else (
        RungeKuttaDiscretizationState)
    st = cls(ode_state_size=n, independent_input_size=p, independent_output_size=o,
             number_of_stages=s, linearization_point_size=l)
    if "integration" in kind:
        st = TimeIntegrationState(st, *(
            np.zeros(k, dtype=object if ctx.symbolic else float) for k in (1, 2, 2)))
    return fill(ctx, st, name)


def sizes_of(ctx, smax):
    return (int(ctx.int("n", 0, smax)), int(ctx.int("p", 0, smax)), int(ctx.int("o", 0, 1)),
            int(ctx.int("s", 1, smax)), int(ctx.int("l", 0, smax)))


def same(ctx, label, state, ref):
    got = leaves(state)
    ctx.check(label + "_parts", sorted(got) == sorted(ref))
    for k in ref:
        if k not in got:
            continue
        a, b = np.asarray(got[k], dtype=object), np.asarray(ref[k], dtype=object)
        ctx.check(f"{label}{k}_shape", a.shape == b.shape)
        if a.shape == b.shape and a.size:
            ctx.check_eq(f"{label}{k}", a.ravel(), b.ravel())


def refill(ctx, state, name):
    """Change every entry of every array in place."""
    return fill(ctx, state, name)


def copies(ctx, kind, smax):
    z = sizes_of(ctx, smax)
    a, b = make(ctx, kind, z, "a"), make(ctx, kind, z, "b")
    A, B = snapshot(a), snapshot(b)
    objects = {k: id(v) for k, v in leaves(a).items()}
    a.set(b)
    same(ctx, "set", a, B)
    same(ctx, "set_other", b, B)
    # into the existing arrays, as demanded by the interface
    ctx.check("in_place", all(id(v) == objects[k] for k, v in leaves(a).items()))
    refill(ctx, b, "c")
    C = snapshot(b)
    same(ctx, "later_change_of_other", a, B)
    refill(ctx, a, "d")
    same(ctx, "later_change_of_this", b, C)
    # deep copies
    D = snapshot(a)
    e = copy.deepcopy(a)
    ctx.check("type", type(e) is type(a))
    same(ctx, "deepcopy", e, D)
    refill(ctx, e, "e")
    same(ctx, "deepcopy_change", a, D)
    # from itself
    a.set(a)
    same(ctx, "self", a, D)
    ctx.reach("done")


def round_trip(ctx, kind, smax):
    z = sizes_of(ctx, smax)
    a = make(ctx, kind, z, "a")
    A = snapshot(a)
    d = a.to_dict()
    same(ctx, "unchanged", a, A)
    b = type(a).from_dict(d)
    ctx.check("type", type(b) is type(a))
    same(ctx, "from_dict", b, A)
    if "integration" in kind:
        ctx.check("inner_type", type(b.discretization_state) is type(a.discretization_state))
    # and through a store that copies
    c = type(a).from_dict(copy.deepcopy(d))
    refill(ctx, a, "x")
    same(ctx, "stored", c, A)
    # a second time
    same(ctx, "again", type(c).from_dict(c.to_dict()), A)
    # the restored one is a full state
    f = make(ctx, kind, z, "f")
    f.set(c)
    same(ctx, "set_restored", f, A)
    g = make(ctx, kind, z, "g")
    G = snapshot(g)
    c.set(g)
    same(ctx, "restored_set", c, G)
    ctx.reach("done")


def after_step(ctx, s, kind, n):
    """States that went through real steps are no exception."""
    from rkopenmdao.time_discretization.stage_ordered_runge_kutta_discretization import (
        StageOrderedEmbeddedRungeKuttaDiscretization, StageOrderedRungeKuttaDiscretization,
    )

    emb = "embedded" in kind
    tab = tableau(ctx, s, "dirk", embedded=emb)
    ode_ = SymODE(ctx, n, 1)
    scheme = (StageOrderedEmbeddedRungeKuttaDiscretization if emb
              else StageOrderedRungeKuttaDiscretization)(tab)
    h = ctx.real("h")
    a = scheme.create_empty_discretization_state(ode_)
    for k in ("start_state", "final_state", "independent_inputs", "start_time", "final_time"):
        v = getattr(a, k)
        v[...] = ctx.reals("a_" + k, *v.shape)
    a = scheme.compute_step(ode_, a, h)
    A = snapshot(a)
    b = scheme.create_empty_discretization_state(ode_)
    b.set(a)
    same(ctx, "set", b, A)
    c = type(a).from_dict(copy.deepcopy(a.to_dict()))
    same(ctx, "restored", c, A)
    # a step of the original changes neither copy; a step of each copy is the same
    a = scheme.compute_step(ode_, a, h)
    same(ctx, "kept", b, A)
    same(ctx, "kept_restored", c, A)
    S = snapshot(a)
    same(ctx, "step_of_copy", scheme.compute_step(ode_, b, h), S)
    same(ctx, "step_of_restored", scheme.compute_step(ode_, c, h), S)
    ctx.reach("done")


_F = ("RungeKuttaDiscretizationState", "EmbeddedRungeKuttaDiscretizationState",
      "TimeIntegrationState", "StageOrderedRungeKuttaDiscretization.compute_step")
_K = ("plain", "embedded", "integration", "integration_embedded")
HARNESSES = [
    Harness(
        copies, quick=[dict(kind=k, smax=2) for k in _K],
        thorough=[dict(kind=k, smax=3) for k in _K],
        functions=_F, bounds="all sizes from 0 (stages 1) to 2 (thorough: 3), all values",
        opts=dict(max_paths=20000), stubs=(),
    ),
    Harness(
        round_trip, quick=[dict(kind=k, smax=2) for k in _K],
        thorough=[dict(kind=k, smax=3) for k in _K],
        functions=_F, bounds="all sizes from 0 (stages 1) to 2 (thorough: 3), all values",
        opts=dict(max_paths=20000), stubs=(),
    ),
    Harness(
        after_step, quick=[dict(s=2, kind=k, n=2) for k in _K[:2]],
        thorough=[dict(s=s, kind=k, n=2) for k in _K[:2] for s in (1, 3)],
        functions=_F, bounds="2 steps, 1 to 3 stages, 2 values",
        stubs=("ODE: uninterpreted functions",),
    ),
]
