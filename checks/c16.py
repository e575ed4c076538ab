"""C16: tags of the stage problem are mapped correctly or rejected."""
from vlib.run import Harness
from vlib.ranks import problem_of_rank, run_ranks
from vlib.world import *
from rkopenmdao.butcher_tableaux import explicit_euler
from rkopenmdao.discretized_ode.openmdao_ode import OpenMDAOODE
from rkopenmdao.errors import SetupError

ASSUMPTIONS = [
    "models with symbolic tags: a stub that answers get_io_metadata like OpenMDAO does; the "
    "remaining harnesses use OpenMDAO itself",
    "which order the quantities have in the state vector is left open",
    "outputs that belong to several quantities without having a role, time variables among the "
    "outputs, and input variables of a quantity with the role of time independent inputs: left open",
]

OUT, STEP, ACC = "stage_output_var", "step_input_var", "accumulated_stage_var"
TIME, INDEP = "time_variable", "time_independent_input_var"
ROLES = {OUT, STEP, ACC, TIME, INDEP}


class Tags:
    """A set of tags, whose members are decided when somebody asks for them."""

    def __init__(self, ctx, var, universe, fixed=()):
        self.ctx, self.var = ctx, var
        self.universe, self.fixed, self.known = tuple(universe), set(fixed), {}

    def __contains__(self, t):
        if t in self.fixed:
            return True
        if t not in self.universe:
            return False
        if t not in self.known:
            self.known[t] = bool(self.ctx.bool(f"{self.var}:{t}"))
        return self.known[t]

    def __iter__(self):
        return iter([t for t in (*sorted(self.fixed), *self.universe) if t in self])

    def __len__(self):
        return len(list(self))

    def __and__(self, other):
        return {t for t in other if t in self}

    __rand__ = intersection = __and__

    def __or__(self, other):
        return set(self) | set(other)

    __ror__ = union = __or__

    def __sub__(self, other):
        return set(self) - set(other)

    def __rsub__(self, other):
        return set(other) - set(self)

    def __le__(self, other):
        return set(self) <= set(other)

    def __ge__(self, other):
        return all(t in self for t in other)

    issubset, issuperset, difference = __le__, __ge__, __sub__

    def isdisjoint(self, other):
        return not any(t in self for t in other)

    def copy(self):
        return set(self)

    def __eq__(self, other):
        return set(self) == set(other)

    __hash__ = None


class _One:
    rank, size = 0, 1

    def allreduce(self, value, op=None):
        return value

    def Get_rank(self):
        return 0

    def Get_size(self):
        return 1


class _Model:
    """get_io_metadata of an OpenMDAO model on one process."""

    def __init__(self, variables):
        self.variables = variables
        self.comm = _One()

    def get_io_metadata(self, iotypes=("input", "output"), metadata_keys=None, includes=None,
                        excludes=None, is_indep_var=None, is_design_var=None, tags=(),
                        get_remote=False, rank=None, return_rel_names=True):
        if isinstance(iotypes, str):
            iotypes = (iotypes,)
        if isinstance(tags, str):
            tags = [tags]
        out = {}
        for io in iotypes:
            for n, kind, t, shape in self.variables:
                if kind != io or (tags and not t & tags):
                    continue
                meta = dict(tags=t, shape=shape, global_shape=shape, distributed=False)
                keys = meta if metadata_keys is None else metadata_keys
                out[n] = {k: meta[k] for k in keys}
                out[n].update(prom_name=n, discrete=False)
        return out

    def system_iter(self, *args, **kw):
        return []

    def get_source(self, name):
        return name

    def run_solve_linear(self, mode):
        raise NotImplementedError


class _Problem:
    def __init__(self, variables):
        self.model = _Model(variables)
        self.comm = self.model.comm


def expected(variables, quantities, independent):
    """None if to be rejected, else what belongs to each quantity.  `open` where nothing
    is specified."""
    table = [(n, io, set(t), shape) for n, io, t, shape in variables]
    for n, io, t, shape in table:
        for wanted in (set(quantities), set(independent)):
            own = t & wanted
            if not own:
                continue
            roles = t & ROLES
            if len(roles) > 1 or (io == "output") != (roles == {OUT}) and roles:
                return None
            if roles and len(own) > 1:
                return None
            if io == "output" and len(own) > 1:
                return "open"
            if io == "input" and wanted == set(independent) and len(own) > 1:
                return "open"
            if INDEP in roles and t & set(quantities):
                return "open"
    result = {}
    for q in quantities:
        found = {
            r: [v for v in table if q in v[2] and r in v[2]] for r in (OUT, STEP, ACC)
        }
        counts = tuple(len(found[r]) for r in (OUT, STEP, ACC))
        if counts not in [(1, 0, 0), (1, 1, 1)]:
            return None
        if len({int(np.prod(v[0][3])) for v in found.values() if v}) > 1:
            return None
        result[q] = {r: (v[0][0] if v else None) for r, v in found.items()}
        result[q]["shape"] = found[OUT][0][3]
    for q in independent:
        found = [v for v in table if q in v[2] and INDEP in v[2]]
        if len(found) != 1:
            return None
        result[q] = {INDEP: found[0][0], "shape": found[0][3]}
    times = [v for v in table if TIME in v[2] and v[1] == "input"]
    if len(times) > 1 or (times and int(np.prod(times[0][3])) != 1):
        return None
    result[TIME] = times[0][0] if times else None
    return result


def ranges(ctx, label, quantity_list, size):
    """Ranges of their own, without gaps."""
    covered = sorted(
        (int(q.array_metadata.start_index), int(q.array_metadata.end_index))
        for q in quantity_list if q.array_metadata.local
    )
    at = 0
    for s, e in covered:
        ctx.check(label + "_ranges", s == at and e >= s)
        at = e
    ctx.check(label + "_size", at == size)


def mapped(ctx, ode, exp, quantities, independent):
    md = ode.time_integration_metadata
    ctx.check("time", md.time_variable == exp[TIME])
    ctx.check("names", sorted(q.name for q in md.time_integration_quantity_list) == sorted(quantities))
    ctx.check("independent_names", sorted(
        q.name for q in md.time_independent_input_quantity_list) == sorted(independent))
    for q in md.time_integration_quantity_list:
        e, t, a = exp[q.name], q.translation_metadata, q.array_metadata
        ctx.check("output_" + q.name, t.stage_output_var == e[OUT])
        ctx.check("step_" + q.name, t.step_input_var == e[STEP])
        ctx.check("acc_" + q.name, t.accumulated_stage_var == e[ACC])
        ctx.check("shape_" + q.name, tuple(a.shape) == tuple(e["shape"]))
        ctx.check("range_" + q.name, a.end_index - a.start_index == int(np.prod(e["shape"])))
        ctx.check("local_" + q.name, bool(a.local) and not a.distributed)
        ctx.check("global_" + q.name, (a.global_start_index, a.global_end_index) == (
            0, int(np.prod(e["shape"]))))
    for q in md.time_independent_input_quantity_list:
        e, a = exp[q.name], q.array_metadata
        ctx.check("input_" + q.name,
                  q.translation_metadata.time_independent_input_var == e[INDEP])
        ctx.check("shape_" + q.name, tuple(a.shape) == tuple(e["shape"]))
        ctx.check("range_" + q.name, a.end_index - a.start_index == int(np.prod(e["shape"])))
    ranges(ctx, "state", md.time_integration_quantity_list, ode.get_state_size())
    ranges(ctx, "input", md.time_independent_input_quantity_list,
           ode.get_independent_input_size())


def tags(ctx, variables, quantities, independent=(), sizes=""):
    """All combinations of tags on the given variables."""
    quantities, independent = list(quantities), list(independent)
    vs = []
    for n, io, universe, fixed in variables:
        shape = ctx.choice("shape_" + n, [(1,), (2,), (1, 2)]) if n in sizes else (1,)
        vs.append((n, io, Tags(ctx, n, universe, fixed), shape))
    try:
        with quiet():
            ode = OpenMDAOODE(_Problem(vs), quantities, independent)
    except SetupError:
        ode = None
    exp = expected(vs, quantities, independent)
    if exp == "open":
        ctx.reach("open")
        return
    ctx.check("accepted", (ode is not None) == (exp is not None))
    if ode is None or exp is None:
        ctx.reach("rejected")
        return
    mapped(ctx, ode, exp, quantities, independent)
    ctx.reach("accepted")


# ---------------------------------------------------------------------------
# OpenMDAO itself
# ---------------------------------------------------------------------------


class Empty(om.ExplicitComponent):
    def initialize(self):
        self.options.declare("variables")

    def setup(self):
        for n, io, t, shape in self.options["variables"]:
            (self.add_input if io == "input" else self.add_output)(n, shape=shape, tags=t)

    def compute(self, inputs, outputs):
        pass


def stage_problem(ctx, variables, parts, nested):
    """Variables distributed over components; nested: each one in a group of its own."""
    p = om.Problem(reports=False)
    names = {}
    for k in range(max(parts) + 1):
        own = [v for v, j in zip(variables, parts) if j == k]
        at = p.model
        path = ""
        if nested:
            at = at.add_subsystem(f"g{k}", om.Group())
            path = f"g{k}."
        at.add_subsystem(f"c{k}", Empty(variables=own))
        for v in own:
            names[v[0]] = f"{path}c{k}.{v[0]}"
    return p, names


def integrator(inner, quantities, independent):
    from rkopenmdao.runge_kutta_integrator import RungeKuttaIntegrator

    p = om.Problem(reports=False)
    rk = p.model.add_subsystem("rk", RungeKuttaIntegrator(
        time_stage_problem=inner, butcher_tableau=explicit_euler,
        integration_config=IntegrationConfig(False, PredefinedNumberOfSteps(1), 0.5),
        time_integration_quantities=quantities, time_independent_input_quantities=independent,
    ))
    p.setup()
    return rk


def proper():
    """Three quantities with parameter and time, and one that is not asked for."""
    r = []
    for q, shape in (("u", (2,)), ("v", (1, 3))):
        r += [[q + "_step", "input", [q, STEP], shape], [q + "_acc", "input", [q, ACC], shape],
              [q + "_upd", "output", [q, OUT], shape]]
    r.append(["w_upd", "output", ["w", OUT], (2, 2)])
    r.append(["t", "input", [TIME], (1,)])
    r.append(["p", "input", ["p", INDEP], (3, 1)])
    r.append(["r", "input", ["r", INDEP], (2,)])
    r += [["z_step", "input", ["z", STEP], (5,)], ["z_acc", "input", ["z", ACC], (5,)],
          ["z_upd", "output", ["z", OUT], (5,)], ["s", "input", ["s", INDEP], (4,)],
          ["plain", "output", [], (7,)]]
    return r


def naming(ctx):
    """Names, order and nesting are irrelevant."""
    vs = proper()
    if bool(ctx.bool("misleading_names")):
        names = [v[0] for v in vs]
        for v, n in zip(vs, names[3:] + names[:3]):
            v[0] = n
    if bool(ctx.bool("tags_reversed")):
        for v in vs:
            v[2] = ["other", *reversed(v[2])]
    if bool(ctx.bool("variables_reversed")):
        vs.reverse()
    spread = ctx.choice("spread", ["one", "alternating", "each", "backwards"])
    parts = {"one": [0] * len(vs), "alternating": [i % 2 for i in range(len(vs))],
             "each": list(range(len(vs))),
             "backwards": list(reversed(range(len(vs))))}[spread]
    inner, names = stage_problem(ctx, vs, parts, bool(ctx.bool("nested")))
    quantities, independent = ["u", "v", "w"], ["p", "r"]
    if bool(ctx.bool("requested_reversed")):
        quantities.reverse()
        independent.reverse()
    exp = expected(vs, quantities, independent)
    for e in exp.values():
        if isinstance(e, dict):
            for k in (OUT, STEP, ACC, INDEP):
                if e.get(k) is not None:
                    e[k] = names[e[k]]
    exp[TIME] = names[exp[TIME]]
    with quiet():
        rk = integrator(inner, quantities, independent)
        ode = OpenMDAOODE(inner, quantities, independent)
    mapped(ctx, ode, exp, quantities, independent)
    io = rk.get_io_metadata(metadata_keys=["shape"])
    shapes = {k: tuple(v["shape"] or ()) for k, v in io.items()}
    want = {"time_initial": (1,), "time_final": (1,)}
    for q in quantities:
        want[q + "_initial"] = want[q + "_final"] = exp[q]["shape"]
    for q in independent:
        want[q] = exp[q]["shape"]
    ctx.check("variables_of_the_integrator", sorted(shapes) == sorted(want))
    for k, s in want.items():
        if not k.endswith("_final") or k == "time_final":
            ctx.check("shape_" + k, shapes.get(k) == tuple(s))
    ctx.reach("done")


FAULTS = {
    "nothing": lambda vs: None,
    "no_output": lambda vs: vs.pop("u_upd"),
    "no_step": lambda vs: vs.pop("u_step"),
    "no_acc": lambda vs: vs.pop("v_acc"),
    "output_without_role": lambda vs: vs["u_upd"][2].remove(OUT),
    "second_output": lambda vs: vs.update(x=["x", "output", ["u", OUT], (2,)]),
    "second_step": lambda vs: vs.update(x=["x", "input", ["v", STEP], (1, 3)]),
    "second_acc": lambda vs: vs.update(x=["x", "input", ["v", ACC], (1, 3)]),
    "second_input": lambda vs: vs.update(x=["x", "input", ["p", INDEP], (3, 1)]),
    "second_time": lambda vs: vs.update(x=["x", "input", [TIME], (1,)]),
    "no_parameter": lambda vs: vs.pop("p"),
    "parameter_without_role": lambda vs: vs["p"][2].remove(INDEP),
    "time_no_scalar": lambda vs: vs["t"].__setitem__(3, (2,)),
    "two_roles": lambda vs: vs["u_acc"][2].append(STEP),
    "step_is_output": lambda vs: vs["u_step"].__setitem__(1, "output"),
    "update_is_input": lambda vs: vs["w_upd"].__setitem__(1, "input"),
    "parameter_is_output": lambda vs: vs["p"].__setitem__(1, "output"),
    "two_quantities": lambda vs: vs["u_step"][2].append("w"),
    "output_of_two": lambda vs: vs["w_upd"][2].append("v"),
    "parameter_of_two": lambda vs: vs["r"][2].append("p"),
    "other_size": lambda vs: vs["u_step"].__setitem__(3, (1,)),
    "other_size_acc": lambda vs: vs["v_acc"].__setitem__(3, (1,)),
    "time_is_state": lambda vs: vs["w_upd"][2].append(TIME),
    "unused_output_tag": lambda vs: vs.update(x=["x", "output", ["u"], (1,)]),
    "unused_input_tag": lambda vs: vs.update(x=["x", "input", ["p"], (1,)]),
}


def faulty(ctx):
    """The integrator is set up with proper tags and rejects the others."""
    vs = {v[0]: v for v in proper()}
    f = ctx.choice("fault", list(FAULTS))
    FAULTS[f](vs)
    vs = list(vs.values())
    quantities, independent = ["u", "v", "w"], ["p", "r"]
    parts = [i % 2 for i in range(len(vs))]
    exp = expected(vs, quantities, independent)
    inner, _ = stage_problem(ctx, vs, parts, bool(ctx.bool("nested")))
    try:
        with quiet():
            integrator(inner, quantities, independent)
        ok = True
    except SetupError:
        ok = False
    ctx.check("specified", exp != "open")
    ctx.check("accepted", ok == (exp is not None))
    ctx.reach("accepted" if ok else "rejected")


# ---------------------------------------------------------------------------
# several processes
# ---------------------------------------------------------------------------


def processes(ctx, smax, ranks):
    """Local and global ranges of distributed quantities and parameters."""
    def sizes(name):
        dist = bool(ctx.bool("distributed_" + name))
        tail = (2,) if bool(ctx.bool("tail_" + name)) else ()
        if dist:
            s = tuple(int(ctx.int(f"n_{name}{r}", 0, smax)) for r in range(ranks))
            ctx.assume(sum(s) > 0)
        else:
            s = (int(ctx.int("n_" + name, 1, smax)),) * ranks
        return s, dist, tail

    spec = {q: sizes(q) for q in ("u", "v")}
    pspec = {"p": sizes("p")}
    with quiet():
        odes = run_ranks(
            ranks, lambda c: OpenMDAOODE(problem_of_rank(c, spec, pspec), ["u", "v"], ["p"]))
    for r, ode in enumerate(odes):
        md = ode.time_integration_metadata
        for q in [*md.time_integration_quantity_list, *md.time_independent_input_quantity_list]:
            n, dist, tail = {**spec, **pspec}[q.name]
            a, t = q.array_metadata, int(np.prod(tail))
            lab = f"{q.name}{r}_"
            ctx.check(lab + "shape", tuple(a.shape) == (n[r], *tail))
            total = sum(n) if dist else n[r]
            ctx.check(lab + "global_shape", tuple(a.global_shape) == (total, *tail))
            ctx.check(lab + "range", a.end_index - a.start_index == n[r] * t)
            if dist:
                start = sum(n[:r]) * t
                ctx.check(lab + "global_range", (a.global_start_index, a.global_end_index)
                          == (start, start + n[r] * t))
                ctx.check(lab + "distributed", bool(a.distributed) == any(k != sum(n) for k in n))
            else:
                ctx.check(lab + "global_range", (a.global_start_index, a.global_end_index)
                          == (0, n[r] * t))
                ctx.check(lab + "distributed", not a.distributed)
        ranges(ctx, f"state{r}", md.time_integration_quantity_list, ode.get_state_size())
        ranges(ctx, f"input{r}", md.time_independent_input_quantity_list,
               ode.get_independent_input_size())
    ctx.reach("done")


def v(name, io, universe, fixed=()):
    return (name, io, tuple(universe), tuple(fixed))


_roles = [
    # one quantity, any roles of five variables
    dict(variables=[v("o", "output", ["x", OUT]), v("n", "output", ["x", OUT]),
                    v("a", "input", ["x", STEP, ACC]), v("b", "input", ["x", STEP, ACC]),
                    v("c", "input", ["x"], [ACC])],
         quantities=["x"]),
    # roles of the other kind of variable
    dict(variables=[v("o", "output", ["x", OUT, STEP, ACC]), v("n", "output", ["x"], [OUT]),
                    v("a", "input", ["x", STEP, OUT, TIME]), v("b", "input", ["x", ACC, OUT])],
         quantities=["x"]),
    # two quantities
    dict(variables=[v("o", "output", ["x", "y"], [OUT]), v("n", "output", ["x", "y"], [OUT]),
                    v("a", "input", ["x", "y"], [STEP]), v("b", "input", ["x", "y"], [ACC]),
                    v("c", "input", ["x", "y"], [STEP]), v("d", "input", ["x", "y"], [ACC])],
         quantities=["x", "y"]),
    # only one of them asked for
    dict(variables=[v("o", "output", ["x", "y", OUT]), v("n", "output", ["x", "y", OUT]),
                    v("a", "input", ["x", "y", STEP]), v("b", "input", ["x", "y", ACC])],
         quantities=["y"]),
    # time and time independent inputs
    dict(variables=[v("o", "output", [], ["x", OUT]),
                    v("a", "input", ["p", INDEP, TIME]), v("b", "input", ["p", INDEP, STEP]),
                    v("c", "input", ["p", INDEP, TIME])],
         quantities=["x"], independent=["p"]),
    dict(variables=[v("o", "output", ["p", INDEP], ["x", OUT]), v("a", "input", ["p", "r", INDEP]),
                    v("b", "input", ["p", "r", INDEP]), v("c", "input", ["p", "r", INDEP])],
         quantities=["x"], independent=["p", "r"]),
    dict(variables=[v("o", "output", ["p", INDEP, "x"]), v("m", "output", [], ["x", OUT]),
                    v("a", "input", ["p", INDEP]), v("b", "input", ["p", INDEP])],
         quantities=["x"], independent=["p"]),
    # sizes
    dict(variables=[v("o", "output", [], ["x", OUT]), v("a", "input", ["x"], [STEP]),
                    v("b", "input", ["x"], [ACC]), v("e", "output", ["y"], [OUT])],
         quantities=["x"], sizes="oabe"),
    dict(variables=[v("o", "output", [], ["x", OUT]), v("c", "input", [TIME]),
                    v("d", "input", ["p"], [INDEP]), v("e", "input", ["p", TIME])],
         quantities=["x"], independent=["p"], sizes="ocde"),
]
_more = [
    dict(variables=[v("o", "output", ["x", OUT]), v("n", "output", ["x", OUT]),
                    v("a", "input", ["x", STEP, ACC]), v("b", "input", ["x", STEP, ACC]),
                    v("c", "input", ["x", STEP, ACC])],
         quantities=["x"]),
    dict(variables=[v("o", "output", ["x", OUT, STEP, ACC]), v("n", "output", ["x", OUT, STEP]),
                    v("a", "input", ["x", STEP, OUT, TIME]), v("b", "input", ["x", ACC, OUT])],
         quantities=["x"]),
    dict(variables=[v("o", "output", ["x", "y", OUT]), v("n", "output", ["x", "y", OUT]),
                    v("a", "input", ["x", "y"], [STEP]), v("b", "input", ["x", "y"], [ACC]),
                    v("c", "input", ["x", "y"], [STEP]), v("d", "input", ["x", "y"], [ACC])],
         quantities=["x", "y"]),
    dict(variables=[v("o", "output", ["x", "y", OUT, STEP]), v("n", "output", ["x", "y", OUT]),
                    v("a", "input", ["x", "y", STEP, ACC]), v("b", "input", ["x", "y", STEP, ACC]),
                    v("c", "input", ["x", STEP, ACC])],
         quantities=["x", "y"]),
    dict(variables=[v("o", "output", ["x", OUT, TIME]), v("n", "output", ["x", OUT]),
                    v("a", "input", ["x", STEP, ACC, TIME]), v("b", "input", ["x", STEP, ACC, TIME]),
                    v("c", "input", ["x", STEP, ACC, TIME])],
         quantities=["x"]),
]
_F = (
    "extract_time_integration_metadata", "add_time_independent_input_metadata",
    "add_distributivity_information", "OpenMDAOODE.__init__",
)
HARNESSES = [
    Harness(
        tags, quick=_roles, thorough=_roles + _more, functions=_F,
        reach=("accepted", "rejected"), stubs=("OpenMDAO model: get_io_metadata",),
        bounds="up to six variables with every combination of up to five tags each, two "
        "quantities, two time independent inputs, shapes (1,), (2,) and (1, 2)",
    ),
    Harness(
        naming, quick=[dict()], thorough=[dict()], functions=_F + (
            "RungeKuttaIntegrator.setup",),
        bounds="a problem with 15 variables; names, order of variables, tags and requested "
        "quantities, distribution over components, nesting",
    ),
    Harness(
        faulty, quick=[dict()], thorough=[dict()], functions=_F + (
            "RungeKuttaIntegrator.setup",), reach=("accepted", "rejected"),
        bounds="25 single changes of the tags and sizes of a proper problem",
    ),
    Harness(
        processes, quick=[dict(smax=1, ranks=2)], thorough=[dict(smax=2, ranks=2), dict(smax=1, ranks=3)],
        functions=_F, stubs=("OpenMDAO model of each process", "MPI communicator"),
        bounds="two (thorough: three) processes, sizes up to 1 (2) per process and row lengths 1 or 2, two quantities and a "
        "parameter, distributed or not",
    ),
]
