"""C13: state norms and error measures are what they claim to be."""
from vlib.run import Harness
from vlib.world import *
from vlib.layouts import LAYOUTS
from vlib.ranks import Rank, problem_of_rank, run_ranks
from rkopenmdao.discretized_ode.discretized_ode import DiscretizedODEResultState
from rkopenmdao.discretized_ode.openmdao_ode import OpenMDAOODE
from rkopenmdao.error_measurer import ImprovedErrorMeasurer, SimpleErrorMeasurer

ASSUMPTIONS = [
    "real arithmetic: rounding of IEEE doubles is not modelled",
    "powers with real exponents follow the power laws for positive bases",
    "communication: allreduce of mpi4py combines the values of all processes with its operation",
]

INF = float("inf")


def vector_norm(values, order):
    """Definition of the vector norm."""
    v = [abs(x) for x in values]
    if order in (INF, -INF):
        r = v[0]
        for x in v[1:]:
            if bool(x > r) if order == INF else bool(x < r):
                r = x
        return r
    s = 0.0
    for x in v:
        s = s + (x if order == 1 else x**order)
    if isinstance(s, float):
        return s ** (1.0 / order)
    return s if order == 1 else s ** (1.0 / order)


def _state(ctx, n, values):
    return DiscretizedODEResultState(
        stage_update=ctx.reals("other", n), stage_state=values,
        independent_output=np.zeros(0),
    )


def serial(ctx, layout, order, exclude):
    lay = LAYOUTS[layout]()
    names = [q.name for q in lay.quants]
    excluded = [n for n in names if exclude and bool(ctx.bool("exclude_" + n))]
    if len(excluded) == len(names) and order == -INF:
        return
    with quiet():
        p = inner_problem(ctx, lay)
        p.setup()
        p.final_setup()
        kw = {} if order == "default" else dict(norm_order=order)
        # reversed: the order of the request does not matter
        o = OpenMDAOODE(p, names[::-1], [q.name for q in lay.params],
                        norm_exclusions=excluded if exclude else None, **kw)
    order = 2 if order == "default" else order
    # ranges of the quantities as the step functions of the ODE use them
    x = ctx.reals("x", lay.n)
    pos = {
        q.name: (q.array_metadata.start_index, q.array_metadata.end_index)
        for q in o.time_integration_metadata.time_integration_quantity_list
    }
    used = [v for n in names if n not in excluded for v in x[slice(*pos[n])]]
    ctx.check_eq("norm", o.compute_state_norm(_state(ctx, lay.n, x)),
                 vector_norm(used, order) if used else 0.0)
    if excluded:
        ctx.reach("excluded")
    ctx.reach("done")


# kinds of a quantity on two processes: sizes and whether it is distributed
KINDS = {
    "replicated": ((2, 2), False),
    "split": ((1, 2), True),
    "even": ((1, 1), True),
    "empty0": ((0, 2), True),
    "empty1": ((2, 0), True),
    "only0": ((1, None), False),
    "only1": ((None, 1), False),
}


def parallel(ctx, kinds, order, exclude):
    """Every process gets the norm of the global vector."""
    names = ["q", "q_1", "1_q", "q_1_q"][: len(kinds)]  # parts of each other
    ks = [ctx.choice(f"kind{i}", k) if not isinstance(k, str) else k
          for i, k in enumerate(kinds)]
    excluded = [n for n in names if exclude and bool(ctx.bool("exclude_" + n))]
    if len(excluded) == len(names) and order == -INF:
        return
    spec = {n: KINDS[k] for n, k in zip(names, ks)}
    glob, local = [], ([], [])
    for n in names:
        sizes, dist = spec[n]
        if dist:
            parts = [list(ctx.reals(f"x_{n}_{r}", s)) if s else [] for r, s in enumerate(sizes)]
            value = parts[0] + parts[1]
        else:
            value = list(ctx.reals(f"x_{n}", max(s or 0 for s in sizes)))
            parts = [value if s is not None else None for s in sizes]
        for r in (0, 1):
            local[r].append((n, parts[r]))
        if n not in excluded:
            glob.extend(value)
    comms = {}

    def build(comm):
        comms[comm.rank] = comm
        with quiet():
            return OpenMDAOODE(
                problem_of_rank(comm, spec), names, norm_exclusions=excluded,
                norm_order=order,
            )

    odes = run_ranks(2, build)
    vals = []
    for r, o in enumerate(odes):
        v = [None] * o.get_state_size()
        for q in o.time_integration_metadata.time_integration_quantity_list:
            part = dict(local[r])[q.name] or []
            if q.array_metadata.local:
                v[q.array_metadata.start_index : q.array_metadata.end_index] = part
        ctx.check("own_ranges", all(z is not None for z in v)
                  and len(v) == sum(len(p or []) for _, p in local[r]))
        vals.append(arr(v) if v else np.zeros(0, dtype=object))

    def norm(comm):
        o = odes[comm.rank]
        comms[comm.rank].bind(comm)
        return o.compute_state_norm(
            DiscretizedODEResultState(np.zeros(len(vals[comm.rank])), vals[comm.rank], np.zeros(0))
        )

    got = run_ranks(2, norm)
    ref = vector_norm(glob, order) if glob else 0.0
    for r in (0, 1):
        ctx.check_eq(f"norm_on_{r}", got[r], ref)
    ctx.reach("done")


class _Norms:
    """ODE with an arbitrary norm."""

    def __init__(self, ctx):
        self.ctx = ctx

    def compute_state_norm(self, state):
        return abs(self.ctx.uf("norm", *state.stage_state))


def measures(ctx, n, default):
    ode = _Norms(ctx)
    e, y = ctx.reals("e", n), ctx.reals("y", n)
    es, ys = _state(ctx, n, e), _state(ctx, n, y)
    ne, ny = ode.compute_state_norm(es), ode.compute_state_norm(ys)
    ctx.check_eq("simple", SimpleErrorMeasurer().get_measure(es, ys, ode), ne)
    if default:
        eta, eps = 1e-6, 1e-6
        m = ImprovedErrorMeasurer()
    else:
        eta, eps = ctx.real("eta", positive=True), ctx.real("eps", positive=True)
        m = ImprovedErrorMeasurer(eta=eta, eps=eps)
    ctx.check_eq("improved", m.get_measure(es, ys, ode), ne / (ny + eta / eps))
    ctx.check_eq("again", m.get_measure(es, ys, ode), ne / (ny + eta / eps))
    ctx.reach("done")


def integration(ctx, layout, s, measurer, steps):
    """What the controller of an adaptive integration is given."""
    from rkopenmdao.error_controller import ErrorController, ErrorControllerStatus

    lay = LAYOUTS[layout]()
    tab = tableau(ctx, s, "dirk", embedded=True)
    cls = dict(simple=SimpleErrorMeasurer, improved=ImprovedErrorMeasurer)[measurer]
    h = [ctx.real(f"h{i}") for i in range(steps + 1)]
    seen = []

    class Any_(ErrorController):
        def __call__(self, *, error_measure, **kw):
            seen.append(error_measure)
            return ErrorControllerStatus(h[len(seen)], True)

    w = World(
        ctx, lay, tab, steps=steps, step_size=h[0], adaptive=True,
        error_measurer=cls(), error_controller=[lambda p, **kw: Any_(alpha=1.0)],
    )
    seen.clear()
    x = flat_inputs(ctx, lay)
    w.run(x)
    t, y, par = split_inputs(lay, x)
    ctx.check("calls", len(seen) == steps)
    for i, e in enumerate(seen):
        tn, yn, _ = rk_step(ctx, lay, tab, t, y, par, h[i])
        _, yh, _ = rk_step(ctx, lay, tab, t, y, par, h[i], weights=tab.butcher_adaptive_weights)
        sq = 0.0
        for a, b in zip(yn, yh):
            sq = sq + (a - b) * (a - b)
        ref = sq**0.5
        if measurer == "improved":
            ss = 0.0
            for a in yn:
                ss = ss + a * a
            ctx.check_eq("measure", e, ref / (ss**0.5 + 1.0))
        else:
            ctx.check_eq("measure", e, ref)
        t, y = tn, yn
    ctx.reach("done")


_F = ("OpenMDAOODE.compute_state_norm", "SimpleErrorMeasurer", "ImprovedErrorMeasurer",
      "extract_time_integration_metadata", "add_distributivity_information")
_ORD = (1, 2, 3, 2.5, INF, -INF, "default")
_two = list(KINDS)
HARNESSES = [
    Harness(
        serial,
        quick=[dict(layout=l, order=o, exclude=True) for l in ("two", "three") for o in _ORD]
        + [dict(layout="matrix", order=o, exclude=False) for o in (1, 2, INF)],
        thorough=[dict(layout=l, order=o, exclude=True)
                  for l in ("two", "three", "matrix", "output_only") for o in _ORD + (1.5, 4, 7)],
        functions=_F, reach=("done", "excluded"), opts=dict(max_paths=60000),
        bounds="state vectors of up to 4 values in up to 3 quantities, every exclusion list, "
        "orders 1, 2, 2.5, 3, inf, -inf (thorough: also 1.5, 4, 7)",
        stubs=(),
    ),
    Harness(
        parallel,
        quick=[dict(kinds=[_two, _two], order=o, exclude=False) for o in (2, 1, INF)]
        + [dict(kinds=["split", _two, "replicated"], order=o, exclude=True) for o in (2, 1)]
        + [dict(kinds=["even", ["replicated", "empty0", "only1"]], order=o, exclude=True)
           for o in (3, -INF, INF)],
        thorough=[dict(kinds=[_two, _two, _two], order=o, exclude=False) for o in (2, 1, 3)]
        + [dict(kinds=[_two, _two], order=o, exclude=True) for o in (2, 1, 3, 2.5, INF, -INF)],
        functions=_F, opts=dict(max_paths=60000),
        bounds="2 processes, up to 3 quantities (replicated, distributed with parts of 0-2 "
        "values, or on one process only), every exclusion list",
        stubs=("OpenMDAO problem of each of two processes: metadata as OpenMDAO reports it",
               "MPI communicator: allreduce over both processes"),
    ),
    Harness(
        measures, quick=[dict(n=n, default=d) for n in (1, 2) for d in (True, False)],
        functions=_F, bounds="states of up to 2 values, eta and eps symbolic",
        stubs=("norm: arbitrary non-negative function",),
    ),
    Harness(
        integration,
        quick=[dict(layout=l, s=1, measurer=m, steps=2) for l in ("scalar_p", "two")
               for m in ("simple", "improved")],
        thorough=[dict(layout=l, s=2, measurer=m, steps=2) for l in ("scalar_p", "two", "three")
                  for m in ("simple", "improved")],
        functions=_F + ("RungeKuttaIntegrator._get_error_measure",),
        bounds="2 accepted steps, 1 (2) stages",
        stubs=("inner OpenMDAO component: uninterpreted functions", "controller: accepts"),
    ),
]
