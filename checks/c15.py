"""C15: the OpenMDAO stage problem is driven faithfully."""
from vlib.run import Harness
from vlib.history import Fault
from vlib.layouts import LAYOUTS
from vlib.ranks import problem_of_rank, run_ranks
from vlib.world import *
from rkopenmdao.components import ImplicitUnsteadyComponent
from rkopenmdao.discretized_ode.discretized_ode import (
    DiscretizedODEInputState, DiscretizedODEResultState)
from rkopenmdao.discretized_ode.openmdao_ode import OpenMDAOODE

ASSUMPTIONS = [
    "real arithmetic: rounding of IEEE doubles is not modelled",
    "the components of the stage problem are arbitrary functions with exact derivatives",
    "no unit conversions or index selections between the sources and the tagged variables, "
    "no iterative nonlinear solver inside the stage problem",
    "several processes: the model of each process is a stub that hands out vectors",
]


# ---------------------------------------------------------------------------
# stage problems of different structure with arbitrary functions
# ---------------------------------------------------------------------------


class Part(ExplicitUnsteadyComponent):
    """Outputs are uninterpreted functions of all inputs (and of step size and stage
    factor)."""

    def initialize(self):
        self.options.declare("ctx", recordable=False)
        self.options.declare("ins")
        self.options.declare("outs")
        self.options.declare("unsteady")
        self.options.declare("hook", default=None)

    def setup(self):
        for n, shape, tags in self.options["ins"]:
            self.add_input(n, shape=shape, tags=tags)
        for n, shape, tags in self.options["outs"]:
            self.add_output(n, shape=shape, tags=tags)

    def args(self, inputs):
        a = []
        for n, _, _ in self.options["ins"]:
            a.extend(np.asarray(inputs[n], dtype=object).ravel())
        if self.options["unsteady"]:
            a += [self.om_data_exchange.step_size, self.om_data_exchange.stage_factor]
        return a

    def _hook(self, what):
        if self.options["hook"] is not None:
            self.options["hook"](what)

    def compute(self, inputs, outputs):
        ctx, a = self.options["ctx"], self.args(inputs)
        self._hook("compute")
        for n, shape, _ in self.options["outs"]:
            v = [ctx.uf(f"F_{n}_{i}", *a) for i in range(int(np.prod(shape)))]
            outputs[n] = np.array(v, dtype=object if ctx.symbolic else float).reshape(shape)

    def compute_jacvec_product(self, inputs, d_inputs, d_outputs, mode):
        ctx, a = self.options["ctx"], self.args(inputs)
        self._hook(mode)
        for on, oshape, _ in self.options["outs"]:
            if on not in d_outputs:
                continue
            do = d_outputs[on]
            for i, oi in enumerate(np.ndindex(*oshape)):
                k = 0
                for n, shape, _ in self.options["ins"]:
                    for ii in np.ndindex(*shape):
                        if n in d_inputs:
                            J = ctx.duf(f"F_{on}_{i}", k, *a)
                            if mode == "fwd":
                                do[oi] = do[oi] + J * d_inputs[n][ii]
                            else:
                                d_inputs[n][ii] = d_inputs[n][ii] + J * do[oi]
                        k += 1


class ImplicitPart(ImplicitUnsteadyComponent):
    """Residual k - F(inputs), linearized with arbitrary functions of inputs and k, so
    that the outputs of the linearization point matter as well."""

    initialize = Part.initialize
    args = Part.args
    _hook = Part._hook

    setup = Part.setup

    def apply_nonlinear(self, inputs, outputs, residuals):
        ctx, a = self.options["ctx"], self.args(inputs)
        for n, shape, _ in self.options["outs"]:
            for i, oi in enumerate(np.ndindex(*shape)):
                residuals[n][oi] = outputs[n][oi] - ctx.uf(f"F_{n}_{i}", *a)

    def solve_nonlinear(self, inputs, outputs):
        ctx, a = self.options["ctx"], self.args(inputs)
        self._hook("compute")
        for n, shape, _ in self.options["outs"]:
            v = [ctx.uf(f"F_{n}_{i}", *a) for i in range(int(np.prod(shape)))]
            outputs[n] = np.array(v, dtype=object if ctx.symbolic else float).reshape(shape)

    def linearize(self, inputs, outputs, jacobian):
        a = self.args(inputs)
        for n, _, _ in self.options["outs"]:
            a.extend(np.asarray(outputs[n], dtype=object).ravel())
        self._lin = a

    def apply_linear(self, inputs, outputs, d_inputs, d_outputs, d_residuals, mode):
        ctx, a = self.options["ctx"], self._lin
        self._hook(mode)
        for on, oshape, _ in self.options["outs"]:
            if on not in d_residuals:
                continue
            dr = d_residuals[on]
            for i, oi in enumerate(np.ndindex(*oshape)):
                if on in d_outputs:
                    if mode == "fwd":
                        dr[oi] = dr[oi] + d_outputs[on][oi]
                    else:
                        d_outputs[on][oi] = d_outputs[on][oi] + dr[oi]
                k = 0
                for n, shape, _ in self.options["ins"]:
                    for ii in np.ndindex(*shape):
                        if n in d_inputs:
                            W = ctx.uf(f"W_{on}_{i}_{k}", *a)
                            if mode == "fwd":
                                dr[oi] = dr[oi] - W * d_inputs[n][ii]
                            else:
                                d_inputs[n][ii] = d_inputs[n][ii] - W * dr[oi]
                        k += 1

    def solve_linear(self, d_outputs, d_residuals, mode):
        self._hook(mode)
        for on, _, _ in self.options["outs"]:
            if mode == "fwd":
                d_outputs[on] = d_residuals[on]
            else:
                d_residuals[on] = d_outputs[on]


class Watch(om.ExplicitComponent):
    """Uses variables without computing anything from them."""

    def initialize(self):
        self.options.declare("ins")

    def setup(self):
        for n, shape, _ in self.options["ins"]:
            self.add_input(n, shape=shape)


def variables(lay):
    """Inputs in the order of the argument vector, outputs by quantity."""
    ins = []
    if lay.time:
        ins.append(("time", (1,), ["time_variable"]))
    for q in lay.quants:
        if q.inputs:
            ins.append((q.name + "_old", q.shape, [q.name, "step_input_var"]))
    for q in lay.quants:
        if q.inputs:
            ins.append((q.name + "_acc", q.shape, [q.name, "accumulated_stage_var"]))
    for p in lay.params:
        ins.append((p.name + "_in", p.shape, [p.name, "time_independent_input_var"]))
    outs = [(q.name + "_upd", q.shape, [q.name, "stage_output_var"]) for q in lay.quants]
    return ins, outs


def untagged(vs):
    return [(n, s, []) for n, s, _ in vs]


def stage_problem(ctx, lay, structure, hook=None):
    ins, outs = variables(lay)
    kw = dict(ctx=ctx, unsteady=lay.unsteady, hook=hook)
    p = om.Problem(reports=False)
    m = p.model
    if structure == "flat":
        m.add_subsystem("part", Part(ins=ins, outs=outs, **kw), promotes=["*"])
    elif structure == "nested":
        g = m.add_subsystem("b", om.Group()).add_subsystem("a", om.Group())
        g.add_subsystem("part", Part(ins=ins, outs=outs, **kw))
    elif structure == "sources":
        src = m.add_subsystem("src", om.IndepVarComp())
        for n, s, _ in reversed(ins):
            src.add_output("of_" + n, shape=s)
        m.add_subsystem("part", Part(ins=ins, outs=outs, **kw))
        for n, _, _ in ins:
            m.connect("src.of_" + n, "part." + n)
    elif structure == "split":
        # a component per quantity, in reverse order, inputs shared by promotion, the
        # tags of the inputs spread over the components
        for k, o in reversed(list(enumerate(outs))):
            own = [
                v if i % len(outs) == k else (v[0], v[1], []) for i, v in enumerate(ins)
            ]
            m.add_subsystem(f"part{k}", Part(ins=own, outs=[o], **kw), promotes=["*"])
    elif structure == "chain":
        # an intermediate result without tag that all outputs depend on as well
        z = ("z", (2,), [])
        first = m.add_subsystem("pre", om.Group(), promotes=["*"])
        first.add_subsystem("part", Part(ins=untagged(ins), outs=[z], **kw), promotes=["*"])
        m.add_subsystem("part", Part(ins=ins + [z], outs=outs, **kw), promotes=["*"])
    elif structure in ("implicit", "watched"):
        if structure == "watched":
            # more inputs than outputs
            for k in range(2):
                m.add_subsystem(f"watch{k}", Watch(ins=untagged(ins)), promotes=["*"])
        m.add_subsystem("part", ImplicitPart(ins=ins, outs=outs, **kw), promotes=["*"])
    with quiet():
        p.setup()
        p.final_setup()
    return p


class Oracle:
    """The functions of the stage problem, by argument vector."""

    def __init__(self, ctx, lay, structure):
        self.ctx, self.lay, self.structure = ctx, lay, structure
        _, self.outs = variables(lay)

    def _all(self, args, extra):
        return [
            self.ctx.uf(f"F_{n}_{i}", *args, *extra)
            for n, s, _ in self.outs for i in range(int(np.prod(s)))
        ]

    def value(self, args, h, a):
        extra = [h, a] if self.lay.unsteady else []
        if self.structure == "chain":
            z = [self.ctx.uf(f"F_z_{i}", *args, *extra) for i in range(2)]
            return self._all(list(args) + z, extra)
        return self._all(args, extra)

    def deriv(self, args, dargs, h, a, at=None):
        """Derivative with step size h and stage factor a, at the point that belongs to
        the evaluation with at = (step size, stage factor)."""
        if self.structure in ("implicit", "watched"):
            lin = list(args) + ([h, a] if self.lay.unsteady else [])
            lin += self.value(args, *(at or (h, a)))
            return [
                dot([self.ctx.uf(f"W_{n}_{i}_{k}", *lin) for k in range(len(args))], dargs)
                for n, s, _ in self.outs for i in range(int(np.prod(s)))
            ]
        return self.ctx.derivative(lambda z: self.value(z, h, a), list(args), list(dargs),
            exact=True)


class Driver:
    """An OpenMDAOODE, called with values given by quantity."""

    def __init__(self, ctx, lay, structure, order=None, params=None):
        self.ctx, self.lay = ctx, lay
        self.fault = Fault()
        self.p = stage_problem(ctx, lay, structure, self.fault)
        with quiet():
            self.ode = OpenMDAOODE(
                self.p, order or [q.name for q in lay.quants],
                params or [x.name for x in lay.params],
            )
        self.oracle = Oracle(ctx, lay, structure)
        md = self.ode.time_integration_metadata
        self.place = {
            q.name: (int(q.array_metadata.start_index), int(q.array_metadata.end_index))
            for q in [*md.time_integration_quantity_list, *md.time_independent_input_quantity_list]
        }

    def _array(self, n, parts):
        a = np.zeros(n, dtype=object if self.ctx.symbolic else float)
        for name, v in parts:
            s, e = self.place[name]
            a[s:e] = v
        return a

    def split(self, args):
        """argument vector -> (time, {old}, {acc}, {par})"""
        o = 0
        t = None
        if self.lay.time:
            t, o = args[0], 1
        res = []
        for part in range(2):
            d = {}
            for q in self.lay.quants:
                if q.inputs:
                    d[q.name] = args[o : o + q.size]
                    o += q.size
            res.append(d)
        d = {}
        for x in self.lay.params:
            d[x.name] = args[o : o + x.size]
            o += x.size
        return t, res[0], res[1], d

    def input(self, args, name, lin=None):
        """Input state; entries the stage problem does not have are arbitrary."""
        ctx, lay = self.ctx, self.lay
        t, old, acc, par = self.split(args)
        for q in lay.quants:
            if not q.inputs:
                old[q.name] = ctx.reals(f"{name}o_{q.name}", q.size)
                acc[q.name] = ctx.reals(f"{name}a_{q.name}", q.size)
        if t is None:
            t = ctx.real(name + "_time")
        return DiscretizedODEInputState(
            self._array(lay.n, old.items()), self._array(lay.n, acc.items()),
            self._array(lay.np, par.items()), t, lin,
        )

    def seed(self, w, name, lin):
        parts, o = [], 0
        for q in self.lay.quants:
            parts.append((q.name, w[o : o + q.size]))
            o += q.size
        n = self.lay.n
        return DiscretizedODEResultState(
            self._array(n, parts),
            np.zeros(n, dtype=object if self.ctx.symbolic else float),
            np.zeros(0), lin,
        )

    def update(self, result):
        r = []
        for q in self.lay.quants:
            s, e = self.place[q.name]
            r.extend(result.stage_update[s:e])
        return r

    def gradient(self, g):
        """Flat, in the order of the argument vector; and what belongs to no variable."""
        r, rest = [], []
        (r if self.lay.time else rest).append(g.time)
        for v in (g.step_input, g.stage_input):
            for q in self.lay.quants:
                s, e = self.place[q.name]
                (r if q.inputs else rest).extend(v[s:e])
        for x in self.lay.params:
            s, e = self.place[x.name]
            r.extend(g.independent_input[s:e])
        return r, rest


def args_of(ctx, lay, name):
    n = sum(int(np.prod(s)) for _, s, _ in variables(lay)[0])
    return [ctx.real(f"{name}{i}") for i in range(n)]


def snapshot(state):
    return {
        k: np.array(v, dtype=object, copy=True)
        for k, v in vars(state).items() if v is not None
    }


def unchanged(ctx, label, state, snap):
    for k, v in snap.items():
        now = np.asarray(getattr(state, k), dtype=object)
        ctx.check_eq(f"{label}_{k}", now, v)


OPS = ("nothing", "evaluate", "fwd", "rev", "fail", "fail_fwd", "fail_rev", "invalid")


def disturb(ctx, D, op, k):
    """Something else happens to the same object."""
    if op == "nothing":
        return
    ctx.reach(op)
    if op == "invalid":
        # a failed linear solve leaves anything behind
        for v in D.p.model.get_linear_vectors():
            v.set_val(float("nan"))
        return
    lay = D.lay
    y = args_of(ctx, lay, f"z{k}_")
    h, a = ctx.real(f"zh{k}"), ctx.real(f"za{k}")
    if op == "fail":
        D.fault.left = 0
    try:
        r = D.ode.compute_update(D.input(y, f"zi{k}"), h, a)
        if op.endswith("fwd"):
            D.fault.left = 0 if op.startswith("fail") else None
            D.ode.compute_update_derivative(
                D.input(args_of(ctx, lay, f"zd{k}_"), f"ze{k}", r.linearization_point), h, a)
        elif op.endswith("rev"):
            D.fault.left = 0 if op.startswith("fail") else None
            D.ode.compute_update_adjoint_derivative(
                D.seed([ctx.real(f"zw{k}_{i}") for i in range(lay.n)], f"zs{k}",
                       r.linearization_point), h, a)
    except om.AnalysisError:
        pass
    finally:
        D.fault.left = None


def exact(ctx, D, label, x, h, a, between=("nothing",) * 3):
    """Evaluation and both products at one point, with other calls in between."""
    lay, ode = D.lay, D.ode
    inp = D.input(x, label + "i")
    snap = snapshot(inp)
    expected = arr(D.oracle.value(x, h, a))
    disturb(ctx, D, between[0], label + "0")
    res = ode.compute_update(inp, h, a)
    ctx.check_eq(label + "update", arr(D.update(res)), expected)
    ctx.check(label + "sizes", res.stage_update.shape == (lay.n,)
              and np.shape(res.linearization_point) == (ode.get_linearization_point_size(),)
              and np.shape(res.independent_output) == (ode.get_independent_output_size(),))
    unchanged(ctx, label + "input", inp, snap)
    kept = snapshot(res)
    disturb(ctx, D, between[1], label + "1")
    dx = args_of(ctx, lay, label + "d")
    pert = D.input(dx, label + "p", res.linearization_point)
    snap = snapshot(pert)
    d = ode.compute_update_derivative(pert, h, a)
    ctx.check_eq(label + "derivative", arr(D.update(d)), arr(D.oracle.deriv(x, dx, h, a)))
    unchanged(ctx, label + "perturbation", pert, snap)
    disturb(ctx, D, between[2], label + "2")
    w = [ctx.real(f"{label}w{i}") for i in range(lay.n)]
    seed = D.seed(w, label + "s", res.linearization_point)
    snap = snapshot(seed)
    g, rest = D.gradient(ode.compute_update_adjoint_derivative(seed, h, a))
    v = args_of(ctx, lay, label + "v")
    ctx.check_eq(label + "adjoint", dot(D.oracle.deriv(x, v, h, a), w), dot(v, g))
    ctx.check_eq(label + "no_variable", arr(rest), arr([0.0] * len(rest)))
    unchanged(ctx, label + "seed", seed, snap)
    unchanged(ctx, label + "result", res, kept)
    ctx.check_eq(label + "update_kept", arr(D.update(res)), expected)
    return res


def transfers(ctx, layout, structure):
    """Every entry at its own place, for every layout and order of the quantities."""
    lay = LAYOUTS[layout]()
    order = list(range(len(lay.quants)))
    if len(order) > 1 and bool(ctx.bool("reversed")):
        order.reverse()
    params = [p.name for p in lay.params]
    if len(params) > 1 and bool(ctx.bool("reversed_params")):
        params.reverse()
    D = Driver(ctx, lay, structure, [lay.quants[i].name for i in order], params)
    ctx.check("state_size", D.ode.get_state_size() == lay.n)
    ctx.check("input_size", D.ode.get_independent_input_size() == lay.np)
    exact(ctx, D, "x", args_of(ctx, lay, "x"), ctx.real("h"), ctx.real("a"))
    ctx.reach("done")


def between(ctx, layout, structure, slots):
    """... no matter what happens before and in between."""
    lay = LAYOUTS[layout]()
    D = Driver(ctx, lay, structure)
    ops = [ctx.choice(f"op{k}", OPS) if slots[k] else "nothing" for k in range(3)]
    exact(ctx, D, "x", args_of(ctx, lay, "x"), ctx.real("h"), ctx.real("a"), ops)
    ctx.reach("done")


def interleaved(ctx, layout, structure):
    """Linearization points of several evaluations, used in any order, with step sizes
    and stage factors of their own."""
    lay = LAYOUTS[layout]()
    D = Driver(ctx, lay, structure)
    pts = []
    for k in range(2):
        x = args_of(ctx, lay, f"x{k}_")
        h, a = ctx.real(f"h{k}"), ctx.real(f"a{k}")
        r = D.ode.compute_update(D.input(x, f"i{k}"), h, a)
        pts.append((x, h, a, r.linearization_point))
    for c in range(3):
        k = int(ctx.int(f"point{c}", 0, 1))
        x, h, a, lin = pts[k]
        dx = args_of(ctx, lay, f"d{c}_")
        expected = D.oracle.deriv(x, dx, h, a)
        if bool(ctx.bool(f"rev{c}")):
            w = [ctx.real(f"w{c}_{i}") for i in range(lay.n)]
            g, _ = D.gradient(
                D.ode.compute_update_adjoint_derivative(D.seed(w, f"s{c}", lin), h, a))
            ctx.check_eq(f"adjoint{c}", dot(expected, w), dot(dx, g))
            ctx.reach("rev")
        else:
            d = D.ode.compute_update_derivative(D.input(dx, f"p{c}", lin), h, a)
            ctx.check_eq(f"derivative{c}", arr(D.update(d)), arr(expected))
            ctx.reach("fwd")
    ctx.reach("done")


def same_point(ctx, layout, structure):
    """Products at the same point with different step sizes and stage factors, which are
    those of the call and not of an earlier one or of the evaluation."""
    lay = LAYOUTS[layout]()
    D = Driver(ctx, lay, structure)
    x = args_of(ctx, lay, "x")
    at = ctx.real("h"), ctx.real("a")
    lin = D.ode.compute_update(D.input(x, "i"), *at).linearization_point
    for c in range(3):
        h, a = ctx.real(f"h{c}"), ctx.real(f"a{c}")
        dx = args_of(ctx, lay, f"d{c}_")
        expected = D.oracle.deriv(x, dx, h, a, at)
        if bool(ctx.bool(f"rev{c}")):
            w = [ctx.real(f"w{c}_{i}") for i in range(lay.n)]
            g, _ = D.gradient(
                D.ode.compute_update_adjoint_derivative(D.seed(w, f"s{c}", lin), h, a))
            ctx.check_eq(f"adjoint{c}", dot(expected, w), dot(dx, g))
            ctx.reach("rev")
        else:
            d = D.ode.compute_update_derivative(D.input(dx, f"p{c}", lin), h, a)
            ctx.check_eq(f"derivative{c}", arr(D.update(d)), arr(expected))
            ctx.reach("fwd")
    ctx.reach("done")


def two_problems(ctx, layout):
    """Objects for different stage problems do not share step size or stage factor."""
    lay = LAYOUTS[layout]()
    Ds = [Driver(ctx, lay, "flat"), Driver(ctx, lay, "nested")]
    x = [args_of(ctx, lay, f"x{k}_") for k in range(2)]
    h = [ctx.real(f"h{k}") for k in range(2)]
    a = [ctx.real(f"a{k}") for k in range(2)]
    res = [D.ode.compute_update(D.input(x[k], f"i{k}"), h[k], a[k]) for k, D in enumerate(Ds)]
    for k, D in enumerate(Ds):
        ctx.check_eq(f"update{k}", arr(D.update(res[k])), arr(D.oracle.value(x[k], h[k], a[k])))
    for k, D in enumerate(Ds):
        d = args_of(ctx, lay, f"d{k}_")
        r = D.ode.compute_update_derivative(
            D.input(d, f"p{k}", res[k].linearization_point), h[k], a[k])
        ctx.check_eq(f"derivative{k}", arr(D.update(r)),
                     arr(D.oracle.deriv(x[k], d, h[k], a[k])))
    ctx.reach("done")


# ---------------------------------------------------------------------------
# several processes
# ---------------------------------------------------------------------------


class _Handler:
    pass


class _Values(dict):
    """Values of the variables of one process."""

    def asarray(self, copy=False):
        return np.zeros(0)

    def set_var(self, name, val, idxs=None, flat=False, var_name=None):
        if name not in self:
            raise KeyError(name)
        val = np.asarray(val, dtype=object)
        if idxs is None:
            self[name] = val.reshape(np.shape(self[name])) if np.ndim(val) else np.full(
                np.shape(self[name]), val.item(), dtype=object)
        elif flat:
            view = self[name].copy()
            view.reshape(-1)[idxs] = val
            self[name] = view
        else:
            view = self[name].copy()
            view[idxs] = val
            self[name] = view

    def get_val(self, name, flat=True):
        return self[name].reshape(-1) if flat else self[name]

    _abs_set_val = set_var
    _abs_get_val = get_val

    def set_val(self, v):
        if np.ndim(v) and np.size(v) == 0:
            return  # the (empty) contents of asarray
        for k in self:
            self[k] = np.full(np.shape(self[k]), v, dtype=object)


def process_parts(ctx, smax):
    """Each process transfers its own part of distributed quantities, and nothing for
    quantities that exist elsewhere only."""
    spec = {}
    for q in ("u", "v"):
        kind = ctx.choice("kind_" + q, ["distributed", "everywhere", "first", "second"])
        if kind == "distributed":
            spec[q] = (tuple(int(ctx.int(f"n_{q}{r}", 0, smax)) for r in range(2)), True, (2,))
            ctx.assume(spec[q][0][0] + spec[q][0][1] > 0)
        else:
            n = int(ctx.int(f"n_{q}", 1, smax))
            here = {"everywhere": (n, n), "first": (n, None), "second": (None, n)}[kind]
            spec[q] = (here, False, ())
    pspec = {"p": ((int(ctx.int("n_p0", 0, smax)), int(ctx.int("n_p1", 0, smax))), True, ())}
    ctx.assume(pspec["p"][0][0] + pspec["p"][0][1] > 0)
    rank_of = int(ctx.int("rank", 0, 1))

    def build(comm):
        problem = problem_of_rank(comm, spec, pspec)
        return problem.model, OpenMDAOODE(problem, ["u", "v"], ["p"])

    with quiet():
        model, ode = run_ranks(2, build)[rank_of]
    dt = object if ctx.symbolic else float
    shapes = {}
    for q, (sizes, _, tail) in spec.items():
        if sizes[rank_of] is not None:
            for suffix in ("_old", "_acc", "_upd"):
                shapes[q + suffix] = (sizes[rank_of], *tail)
    shapes["p_in"] = (pspec["p"][0][rank_of],)
    values, d_out, d_res = (
        _Values({k: ctx.reals(f"left{j}_{k}", *s) for k, s in shapes.items()}) for j in range(3)
    )
    log = []
    outs = [k for k in shapes if k.endswith("_upd")]
    ins = [k for k in shapes if not k.endswith("_upd")]

    def results(vec, name):
        for k in outs:
            vec[k] = ctx.reals(f"{name}_{k}", *shapes[k])

    def solve():
        log.append({k: np.array(values[k], dtype=object) for k in ins})
        results(values, "r")

    def solve_linear(mode):
        if mode == "fwd":
            log.append({k: np.array(d_res[k], dtype=object) for k in ins})
            results(d_out, "d")
        else:
            log.append({k: np.array(d_out[k], dtype=object) for k in outs})
            for k in ins:
                d_res[k] = ctx.reals(f"g_{k}", *shapes[k])

    model.handler = _Handler()
    model.handler.nonlinear = (_Values(), values, _Values())
    model.handler.linear = (_Values(), d_out, d_res)
    model.handler.solve, model.handler.solve_linear = solve, solve_linear

    names = [q for q in spec if q + "_upd" in shapes]
    n = sum(int(np.prod(shapes[q + "_upd"])) for q in names)
    m = shapes["p_in"][0]
    ctx.check("state_size", ode.get_state_size() == n)
    ctx.check("input_size", ode.get_independent_input_size() == m)
    md = ode.time_integration_metadata
    place = {q.name: (int(q.array_metadata.start_index), int(q.array_metadata.end_index))
             for q in md.time_integration_quantity_list}

    def of(v, q):
        s, e = place[q]
        return arr(v[s:e])

    def state(name, lin=None):
        return DiscretizedODEInputState(
            np.array(ctx.reals(name + "o", n), dtype=dt), np.array(ctx.reals(name + "a", n), dtype=dt),
            np.array(ctx.reals(name + "p", m), dtype=dt), ctx.real(name + "t"), lin)

    def given(label, st, sign):
        for q in names:
            ctx.check_eq(f"{label}_{q}_old", log[-1][q + "_old"].ravel(), sign * of(st.step_input, q))
            ctx.check_eq(f"{label}_{q}_acc", log[-1][q + "_acc"].ravel(), sign * of(st.stage_input, q))
        ctx.check_eq(f"{label}_p", log[-1]["p_in"], sign * arr(st.independent_input))

    x = state("x")
    res = ode.compute_update(x, ctx.real("h"), ctx.real("a"))
    given("in", x, 1)
    for q in names:
        ctx.check_eq("update_" + q, of(res.stage_update, q),
                     arr(np.asarray(values[q + "_upd"], dtype=object).ravel()))
    d = state("d", res.linearization_point)
    r = ode.compute_update_derivative(d, ctx.real("h"), ctx.real("a"))
    given("seed", d, -1)
    for q in names:
        ctx.check_eq("derivative_" + q, of(r.stage_update, q),
                     arr(np.asarray(d_out[q + "_upd"], dtype=object).ravel()))
    w = DiscretizedODEResultState(
        np.array(ctx.reals("w", n), dtype=dt), np.zeros(n, dtype=dt), np.zeros(0),
        res.linearization_point)
    g = ode.compute_update_adjoint_derivative(w, ctx.real("h"), ctx.real("a"))
    for q in names:
        ctx.check_eq("rev_seed_" + q, log[-1][q + "_upd"].ravel(), -of(w.stage_update, q))
        ctx.check_eq("gradient_old_" + q, of(g.step_input, q), arr(d_res[q + "_old"].ravel()))
        ctx.check_eq("gradient_acc_" + q, of(g.stage_input, q), arr(d_res[q + "_acc"].ravel()))
    ctx.check_eq("gradient_p", arr(g.independent_input), arr(d_res["p_in"].ravel()))
    ctx.reach("done")


_F = (
    "OpenMDAOODE.__init__", "OpenMDAOODE.compute_update", "OpenMDAOODE.compute_update_derivative",
    "OpenMDAOODE.compute_update_adjoint_derivative", "vector transfers of OpenMDAOODE",
    "linearization point of OpenMDAOODE", "UnsteadyComponentMixin", "OMDataExchange",
)
_S = ("flat", "nested", "sources", "split", "chain", "implicit", "watched")
_stub = ("components of the stage problem: uninterpreted functions and derivatives",)
HARNESSES = [
    Harness(
        transfers,
        quick=[dict(layout=l, structure=s) for l, s in (
            ("three", "flat"), ("three", "nested"), ("three", "sources"), ("three", "split"),
            ("two", "chain"), ("three", "implicit"), ("three", "watched"), ("matrix", "flat"), ("autonomous", "split"),
            ("output_only", "split"), ("output_only", "sources"))],
        thorough=[dict(layout=l, structure=s) for l in LAYOUTS for s in _S],
        functions=_F, stubs=_stub,
        bounds="seven layouts (up to three quantities of up to four entries, up to two "
        "parameters), seven structures of the stage problem; all values and functions symbolic",
    ),
    Harness(
        between,
        quick=[dict(layout="scalar_p", structure="flat", slots=(1, 1, 0)),
               dict(layout="scalar_p", structure="chain", slots=(0, 1, 1)),
               dict(layout="scalar_p", structure="implicit", slots=(0, 1, 1)),
               dict(layout="scalar_p", structure="watched", slots=(0, 1, 0)),
               dict(layout="output_only", structure="split", slots=(0, 1, 0))],
        thorough=[dict(layout="scalar_p", structure=s, slots=(1, 1, 1)) for s in _S]
        + [dict(layout=l, structure="split", slots=(1, 1, 1)) for l in ("output_only", "two")],
        functions=_F, stubs=_stub, reach=("done",) + OPS[1:],
        bounds="any two (thorough: three) of eight kinds of calls (evaluations, products, failing "
        "ones, invalid values left in the linear vectors) before and in between",
    ),
    Harness(
        interleaved,
        quick=[dict(layout="scalar_p", structure=s) for s in ("flat", "split", "implicit")],
        thorough=[dict(layout="scalar_p", structure=s) for s in _S]
        + [dict(layout="two", structure="chain")],
        functions=_F, stubs=_stub, reach=("done", "fwd", "rev"),
        bounds="two linearization points, three products in any order and mode",
    ),
    Harness(
        same_point,
        quick=[dict(layout="scalar_p", structure=s) for s in ("flat", "implicit")],
        thorough=[dict(layout="scalar_p", structure=s) for s in ("flat", "split", "sources", "implicit")]
        + [dict(layout="three", structure="implicit")],
        functions=_F, stubs=_stub, reach=("done", "fwd", "rev"),
        bounds="one linearization point, three products in any mode, step sizes and stage factors "
        "of their own",
    ),
    Harness(
        two_problems, quick=[dict(layout="scalar_p")], thorough=[dict(layout="three")],
        functions=_F, stubs=_stub, bounds="two objects used alternately",
    ),
    Harness(
        process_parts, quick=[dict(smax=2)], thorough=[dict(smax=3)],
        functions=_F, stubs=("OpenMDAO model of each process", "MPI communicator"),
        bounds="two processes, two quantities each of which is distributed, everywhere or on one "
        "process only, with sizes up to 2 (thorough 3) per process, one distributed parameter",
    ),
]
