"""C21: the recorder file holds exactly the integrated trajectory."""
import numpy as np

import rkopenmdao.file_writer as fw
from vlib.run import Harness
from vlib.layouts import LAYOUTS
from vlib.history import *
from vlib import h5stub

ASSUMPTIONS = [
    "real arithmetic: rounding of IEEE doubles is not modelled",
    "symbolic runs use a model of h5py in memory (vlib/h5stub.py); every "
    "counterexample and the sampled paths are replayed with the real h5py",
    "the recorder is registered for the integration or for the forward product",
]


def check_file(ctx, label, name, traj, lay, period, measures=None):
    """The file holds the selected steps of a trajectory, nothing else."""
    got = h5stub.content(name)
    n = len(traj) - 1
    want = [0] + [k for k in range(1, n + 1) if k % period == 0]
    ctx.check(label + "_steps", sorted(got) == sorted(str(k) for k in want))
    for k in want:
        g = got.get(str(k))
        if g is None:
            continue
        t, y = traj[k]
        names = {"time"} | {q.name for q in lay.quants}
        if measures is not None:
            names.add("error_measure")
        ctx.check(label + "_names", set(g) - {"error_measure"} == names - {"error_measure"}
                  and names <= set(g))
        ctx.check_eq(label + "_time", g["time"], arr([t]))
        o = 0
        for q in lay.quants:
            ctx.check_eq(
                label + "_" + q.name, g[q.name],
                np.array(list(y[o : o + q.size]), dtype=object).reshape(q.shape),
            )
            o += q.size
        if measures is not None:
            ctx.check_eq(label + "_error", g["error_measure"], arr([measures[k]]))


def trajectory(ctx, lay, tab, x, hs):
    t, y, par = split_inputs(lay, x)
    r = [(t, y)]
    for h in hs:
        t, y, _ = rk_step(ctx, lay, tab, t, y, par, h)
        r.append((t, y))
    return r


def recorded(ctx, layout, s, nmax, pmax, family, mode="compute", embedded=False, order=None):
    """Integrations at two points with the products in between."""
    lay = LAYOUTS[layout]()
    tab = tableau(ctx, s, "dirk", embedded=embedded)
    h = ctx.real("h")
    n = int(ctx.int("N", 1, nmax))
    period = int(ctx.int("period", 1, pmax))
    cls, opts, name = checkpointer_choice(ctx, family, n, nmax)
    file = h5stub.fresh_name(ctx)
    kw = {
        "compute": "compute_callbacks", "fwd": "compute_jacvec_product_fwd_callbacks"
    }[mode]
    with h5stub.in_memory(ctx, fw):
        try:
            rec = fw.OpenMDAOHDF5Callback(file, write_out_period=period)
            w = World(ctx, lay, tab, steps=n, step_size=h, checkpointer=cls,
                      checkpoint_options=opts, order=order, **{kw: [rec]})
            u = [ctx.real(f"u{i}") for i in range(w.n_out())]
            d = flat_inputs(ctx, lay, "d")
            for p in ("x", "z"):
                x = flat_inputs(ctx, lay, p)
                traj = trajectory(ctx, lay, tab, x, [h] * n)
                w.comp_set(x)
                y = w.comp_run()
                ctx.check_eq(p + "_outputs", arr(y), arr([traj[-1][0], *traj[-1][1]]))
                if mode == "fwd":
                    w.comp_fwd(d)
                check_file(ctx, p, file, traj, lay, period)
                if name != "NoCheckpointer":
                    w.comp_rev(u)
                    check_file(ctx, p + "_after_rev", file, traj, lay, period)
                    ctx.reach(name)
                if mode != "fwd":
                    w.comp_fwd(d)
                check_file(ctx, p + "_after_fwd", file, traj, lay, period)
            if period > n:
                ctx.reach("initial_only")
            ctx.reach("done")
        finally:
            h5stub.discard(ctx, file)


def measured(ctx, layout, steps, rejections, pmax):
    """Adaptive integration: accepted steps with their times, states and measures."""
    from rkopenmdao.error_controller import (
        ErrorController, ErrorControllerConfig, ErrorControllerStatus)
    from rkopenmdao.error_measurer import ErrorMeasurer

    ctx.merge = True
    lay = LAYOUTS[layout]()
    tab = tableau(ctx, 1, "erk", embedded=True)
    tol, h0 = ctx.real("tol", positive=True), ctx.real("h0", positive=True)
    period = int(ctx.int("period", 1, pmax))
    left, accepted = [rejections], []

    class Free(ErrorMeasurer):
        def get_measure(self, state_error_estimate, state, ode):
            return abs(ctx.uf("m", *state_error_estimate.stage_state, *state.stage_state))

    class Any_(ErrorController):
        def __call__(self, *, error_measure, delta_t, remaining_time, error_history,
                     step_size_history):
            a = [error_measure, delta_t]
            acc = bool(ctx.ufb("acc", *a) > 0)
            if acc:
                accepted.append((delta_t, error_measure))
            else:
                if not left[0]:
                    ctx.bound("rejections")
                left[0] -= 1
                ctx.reach("rejected")
            return ErrorControllerStatus(ctx.ufb("size", *a), acc)

    def one(p, config=ErrorControllerConfig(), base=None, **kw):
        return Any_(alpha=1.0, config=config)

    file = h5stub.fresh_name(ctx)
    with h5stub.in_memory(ctx, fw):
        try:
            w = World(
                ctx, lay, tab, steps=steps, step_size=h0, adaptive=True,
                error_measurer=Free(), error_controller=[one],
                error_controller_options=dict(config=ErrorControllerConfig(tol=tol, max_iter=9)),
                compute_callbacks=[fw.OpenMDAOHDF5Callback(file, period)],
            )
            x = flat_inputs(ctx, lay, "x")
            w.comp_set(x)
            w.comp_run()
            traj = trajectory(ctx, lay, tab, x, [h for h, _ in accepted])
            e = [0.0] + [m for _, m in accepted]
            ctx.check("accepted", len(accepted) == steps)
            check_file(ctx, "file", file, traj, lay, period, e)
            last = max(k for k in range(steps + 1) if k % period == 0)
            ctx.check_eq("last_error", fw.read_last_local_error(file), e[last])
            ctx.reach("done")
        finally:
            h5stub.discard(ctx, file)


SHAPES = {"a": (1,), "b": (2, 2), "c": (3,)}


def reading(ctx, nmax, quantities, pmax):
    """Files with many steps read back: every step under its number, errors with respect
    to the given solution, the error measure of the last step."""
    import h5py

    n = int(ctx.int("N", 0, nmax))
    period = int(ctx.int("period", 1, pmax))
    steps = [0] + [k for k in range(1, n + 1) if k % period == 0]
    file = h5stub.fresh_name(ctx)
    num = object if ctx.symbolic else float
    with h5stub.in_memory(ctx, fw):
        try:
            data = {}
            with h5py.File(file, mode="w") as f:
                for k in steps:
                    g = f.create_group(str(k))
                    data[k] = dict(
                        time=np.array([ctx.real(f"t{k}")], dtype=num),
                        error_measure=np.array([ctx.real(f"e{k}")], dtype=num),
                    )
                    for q in SHAPES:
                        m = int(np.prod(SHAPES[q]))
                        data[k][q] = np.array(
                            [ctx.real(f"{q}{k}_{i}") for i in range(m)], dtype=num
                        ).reshape(SHAPES[q])
                    for name, v in data[k].items():
                        g.create_dataset(name, shape=v.shape, dtype=np.float64)[...] = v
            ctx.check_eq("last", fw.read_last_local_error(file),
                         data[steps[-1]]["error_measure"][0])

            def values(q, t, init, t0):
                a = [t, t0]
                for v in init:
                    a.extend(np.asarray(v, dtype=object).ravel())
                m = int(np.prod(SHAPES[q]))
                return np.array(
                    [ctx.uf(f"S_{q}_{i}", *a) for i in range(m)], dtype=num
                ).reshape(SHAPES[q])

            def solution(t, init, t0):
                if len(quantities) == 1:
                    return values(quantities[0], t, [init], t0)
                return [values(q, t, init, t0) for q in quantities]

            time, err, res = fw.read_hdf5_file(file, list(quantities), solution)
            ctx.check("keys", sorted(time) == steps and set(err) == set(quantities)
                      and set(res) == set(quantities))
            init = [data[0][q] for q in quantities]
            for k in steps:
                ctx.check_eq("time", time[k], data[k]["time"][0])
                for q in quantities:
                    ctx.check_eq("result", np.asarray(res[q][k], dtype=object), data[k][q])
                    ex = values(q, data[k]["time"][0], init, data[0]["time"][0])
                    ctx.check_eq("error", np.asarray(err[q][k], dtype=object),
                                 np.array([abs(a - b) for a, b in zip(
                                     ex.ravel(), data[k][q].ravel())],
                                     dtype=object).reshape(SHAPES[q]))
            if n >= 10:
                ctx.reach("two_digits")
            ctx.reach("done")
        finally:
            h5stub.discard(ctx, file)


# ---------------------------------------------------------------------------
# several processes
# ---------------------------------------------------------------------------

# parts of a quantity on the processes; None: not there
KINDS = {
    2: {
        "replicated": ((2, 2), False), "even": ((1, 1), True), "uneven": ((2, 1), True),
        "empty0": ((0, 2), True), "empty1": ((1, 0), True), "only0": ((2, None), False),
        "only1": ((None, 1), False),
    },
    3: {
        "replicated": ((1, 1, 1), False), "uneven": ((1, 2, 1), True),
        "gap": ((1, 0, 1), True), "last": ((0, 0, 2), True), "only1": ((None, 1, None), False),
    },
}


def parallel(ctx, ranks, count, embedded):
    """Every process writes its own part of every quantity, together all of it."""
    from rkopenmdao.discretized_ode.openmdao_ode import OpenMDAOODE
    from rkopenmdao.time_integration_state import TimeIntegrationState
    from rkopenmdao.time_discretization.runge_kutta_discretization_state import (
        EmbeddedRungeKuttaDiscretizationState)
    from rkopenmdao.time_discretization.stage_ordered_runge_kutta_discretization import (
        StageOrderedEmbeddedRungeKuttaDiscretization, StageOrderedRungeKuttaDiscretization)
    from vlib.ranks import run_ranks, problem_of_rank

    kinds = [ctx.choice(f"kind{i}", list(KINDS[ranks])) for i in range(count)]
    tails = [ctx.choice(f"tail{i}", [(), (2,)] if i else [(), (1, 2)]) for i in range(count)]
    spec = {
        f"q{i}": (*KINDS[ranks][k], tails[i]) for i, k in enumerate(kinds)
    }
    h5 = h5stub
    tab = tableau(ctx, 1, "dirk", embedded=embedded)
    num = object if ctx.symbolic else float

    def rows(q):
        sizes, dist, _ = spec[q]
        return sum(sizes) if dist else next(s for s in sizes if s is not None)

    values = {}
    for q in spec:
        shape = (rows(q), *spec[q][2])
        m = int(np.prod(shape))
        for k in (0, 1):
            values[q, k] = np.array(
                [ctx.real(f"{q}_{k}_{i}") for i in range(m)], dtype=num
            ).reshape(shape)
    t = [ctx.real("t0"), ctx.real("t1")]
    e1 = ctx.real("e1")

    def part(q, k, r):
        sizes, dist, _ = spec[q]
        if sizes[r] is None:
            return np.zeros(0, dtype=num)
        if not dist:
            return values[q, k].ravel()
        a = sum(sizes[:r])
        return values[q, k][a : a + sizes[r]].ravel()

    def process(comm):
        r = comm.rank
        p = problem_of_rank(comm, spec)
        ode = OpenMDAOODE(p, list(spec))
        md = ode.time_integration_metadata
        scheme = (
            StageOrderedEmbeddedRungeKuttaDiscretization if embedded
            else StageOrderedRungeKuttaDiscretization
        )(tab)
        n = md.time_integration_array_size
        y = [np.zeros(n, dtype=num), np.zeros(n, dtype=num)]
        for q in md.time_integration_quantity_list:
            a = q.array_metadata
            for k in (0, 1):
                y[k][a.start_index : a.end_index] = part(q.name, k, r)
        d = scheme.create_empty_discretization_state(ode)
        ctx.check("kind", isinstance(d, EmbeddedRungeKuttaDiscretizationState) == embedded)
        d.start_time[0], d.final_time[0] = t
        d.start_state[:], d.final_state[:] = y
        st = TimeIntegrationState(
            d, np.zeros(1), np.zeros(2), np.array([e1, 0.0], dtype=num)
        )
        h5.File.store = h5.Store()
        rec = fw.OpenMDAOHDF5Callback(filename="file", write_out_period=1, comm=comm)
        rec.before_iteration(1, st, ode, scheme)
        rec.after_iteration(1, st, ode, scheme)
        return _structure(h5.File.store), _datasets(h5.File.store)

    import h5py

    real = h5py.File
    names = [k for k, v in vars(fw).items() if v is real]
    old = h5.File.store
    try:
        h5py.File = h5.File
        for k in names:
            setattr(fw, k, h5.File)
        out = run_ranks(ranks, process)
    finally:
        h5py.File = real
        for k in names:
            setattr(fw, k, real)
        h5.File.store = old
    ctx.check("collective", all(o[0] == out[0][0] for o in out))
    want = {f"{k}/{q}" for k in (0, 1) for q in (*spec, "time")}
    if embedded:
        want |= {f"{k}/error_measure" for k in (0, 1)}
    ctx.check("names", set(out[0][1]) == want)
    for k in (0, 1):
        for q in spec:
            sizes, dist, tail = spec[q]
            shape = (rows(q), *tail)
            ds = [o[1][f"{k}/{q}"] for o in out]
            ctx.check("shape", all(d.shape == shape for d in ds))
            cover = np.zeros(shape, dtype=int)
            for r, d in enumerate(ds):
                cover += d.written > 0
                for idx in np.ndindex(*shape):
                    if d.written[idx]:
                        ctx.check_eq("value", d.values[idx], values[q, k][idx])
            if all(d.initial for d in ds):
                # created with values, the same on all processes
                for idx in np.ndindex(*shape):
                    if not cover[idx]:
                        cover[idx] = 1
                        for d in ds:
                            ctx.check_eq("value", d.values[idx], values[q, k][idx])
            if dist:
                ctx.check("own_part", bool(np.all(cover == 1)))
            else:
                ctx.check("written", bool(np.all(cover >= 1)))
        for o in out:
            ctx.check_eq("time", o[1][f"{k}/time"].values, arr([t[k]]))
            if embedded:
                ctx.check_eq("measure", o[1][f"{k}/error_measure"].values,
                             arr([e1 if k else 0.0]))
    for k in kinds:
        ctx.reach(k)
    ctx.reach("done")


def _structure(store):
    r = []

    def walk(g, path):
        for k in sorted(g._items):
            v = g._items[k]
            if isinstance(v, h5stub.Dataset):
                r.append((path + k, v.shape, str(v.dtype)))
            else:
                walk(v, path + k + "/")

    for f in store.files.values():
        walk(f, "")
    return r


def _datasets(store):
    r = {}

    def walk(g, path):
        for k, v in g._items.items():
            if isinstance(v, h5stub.Dataset):
                r[path + k] = v
            else:
                walk(v, path + k + "/")

    for f in store.files.values():
        walk(f, "")
    return r


_F = (
    "OpenMDAOHDF5Callback.before_iteration", "OpenMDAOHDF5Callback.after_iteration",
    "OpenMDAOHDF5Callback.get_write_indices", "RungeKuttaIntegrator._run_step",
)
_q = [
    dict(layout="scalar_p", s=1, nmax=3, pmax=4, family="any"),
    dict(layout="two", s=1, nmax=2, pmax=2, family="store"),
    dict(layout="matrix", s=1, nmax=1, pmax=1, family="store"),
    dict(layout="output_only", s=1, nmax=2, pmax=2, family="store", embedded=True),
    dict(layout="three", s=1, nmax=2, pmax=1, family="store", order=["v", "u", "u_v"]),
    dict(layout="scalar_p", s=1, nmax=2, pmax=2, family="any", mode="fwd"),
]
_t = _q + [
    dict(layout="scalar_p", s=1, nmax=6, pmax=7, family="any"),
    dict(layout="scalar_p", s=2, nmax=3, pmax=2, family="everything"),
    dict(layout="three", s=2, nmax=2, pmax=2, family="any"),
    dict(layout="matrix", s=1, nmax=2, pmax=2, family="everything", embedded=True),
]
_STUB = ("h5py: files in memory", "inner OpenMDAO component: uninterpreted functions")
HARNESSES = [
    Harness(
        recorded, quick=_q, thorough=_t, functions=_F, stubs=_STUB,
        reach=("done", "initial_only", "AllCheckpointer", "SingleLevel", "Memory"),
        bounds="steps 1..3 (6), periods 1..4 (7), two integrations with forward and reverse "
        "products after each, every checkpointer",
    ),
    Harness(
        measured,
        quick=[dict(layout="scalar_p", steps=2, rejections=1, pmax=3),
               dict(layout="two", steps=2, rejections=1, pmax=2)],
        thorough=[dict(layout="scalar_p", steps=3, rejections=2, pmax=4),
                  dict(layout="three", steps=2, rejections=1, pmax=3)],
        functions=_F + ("RungeKuttaIntegrator._iterate_on_step", "read_last_local_error"),
        stubs=_STUB + ("controller and measure: uninterpreted",), reach=("done", "rejected"),
        bounds="2 (3) accepted steps, 1 (2) rejections, periods 1..3 (4)",
    ),
    Harness(
        reading,
        quick=[dict(nmax=11, quantities=["a"], pmax=3),
               dict(nmax=3, quantities=["b", "a"], pmax=2),
               dict(nmax=2, quantities=["c", "b", "a"], pmax=1)],
        thorough=[dict(nmax=25, quantities=["a"], pmax=6),
                  dict(nmax=12, quantities=["b", "a"], pmax=3),
                  dict(nmax=11, quantities=["c", "b", "a"], pmax=2)],
        functions=("read_hdf5_file", "read_last_local_error"), reach=("done", "two_digits"),
        stubs=("h5py: files in memory", "solution: uninterpreted function"),
        bounds="files of up to 11 (25) steps, periods up to 3 (6), up to 3 quantities",
    ),
    Harness(
        parallel,
        quick=[dict(ranks=2, count=2, embedded=False), dict(ranks=3, count=1, embedded=True)],
        thorough=[dict(ranks=2, count=3, embedded=True), dict(ranks=3, count=2, embedded=True)],
        functions=_F + ("extract_time_integration_metadata", "_create_local_array_metadata",
                        "add_distributivity_information"),
        stubs=("h5py: files in memory, one image per process",
               "OpenMDAO problem of each process: metadata as OpenMDAO reports it",
               "MPI communicator"), opts=dict(max_paths=20000),
        bounds="2 and 3 processes, up to 2 (3) quantities of up to 3 axes, replicated, on "
        "one process only or distributed with 0-2 rows per process",
    ),
]
