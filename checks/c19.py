"""C19: bundled ODEs and utility components are consistent."""
from vlib.run import Harness
from vlib.world import *
from rkopenmdao.odes.kaps import KapsComponent1, KapsComponent2, KapsGroup
from rkopenmdao.odes.prothero_robinson_ode import ProtheroRobinson
from rkopenmdao.odes.simple_linear_ode import SimpleLinearODE
from rkopenmdao.utils.utility_components import StageUpdateComponent, StageValueComponent

ASSUMPTIONS = [
    "real arithmetic: rounding of IEEE doubles is not modelled",
    "sin and cos are arbitrary functions that are each other's derivative (up to sign), exp "
    "follows its functional equation; square roots of arguments without real root are excluded",
    "step sizes are positive, stage factors not negative, Kaps' epsilon is positive, and the stage "
    "equations have a solution",
    "the coupled group of Kaps' problem is solved by OpenMDAO's solvers, which are not examined",
]


class Vec:
    """Named arrays, written in place as those of OpenMDAO."""

    def __init__(self, ctx, **values):
        dt = object if ctx.symbolic else float
        self.ctx = ctx
        self.a = {k: np.array(list(v), dtype=dt) for k, v in values.items()}

    def __contains__(self, k):
        return k in self.a

    def __getitem__(self, k):
        return self.a[k]

    def __setitem__(self, k, v):
        self.a[k][...] = v

    def keys(self):
        return self.a.keys()

    __iter__ = keys

    def items(self):
        return self.a.items()

    def values(self):
        return self.a.values()

    def flat(self, names):
        return [x for n in names for x in self.a[n]]


# component, options, size of its variables
KINDS = {
    "kaps1": (KapsComponent1, {"epsilon": 0.5}, 1),
    "kaps2": (KapsComponent2, {}, 1),
    "prothero_robinson": (ProtheroRobinson, {}, 1),
    "simple": (SimpleLinearODE, {}, 1),
    "stage_value": (StageValueComponent, {"tag": "q"}, 2),
    "stage_value_untagged": (StageValueComponent, {}, 2),
    "stage_update": (StageUpdateComponent, {"quantity_list": ["q"]}, 2),
    "stage_update_two": (StageUpdateComponent, {"quantity_list": ["q", "r"]}, 1),
}


class Comp:
    """A component and its variables, with symbolic step size and stage factor."""

    def __init__(self, ctx, kind):
        cls, options, self.size = KINDS[kind]
        self.ctx, self.kind = ctx, kind
        self.comp = c = cls(**options)
        self.inputs, self.outputs, self.tags = [], [], {}

        def add(names):
            def f(name, *a, tags=(), **kw):
                names.append(name)
                self.tags[name] = set(tags or ())
            return f

        c.add_input, c.add_output = add(self.inputs), add(self.outputs)
        c.setup()
        self.h = ctx.real("h", positive=True)
        self.a = ctx.real("a", lo=0.0)
        c.om_data_exchange.step_size = self.h
        c.om_data_exchange.stage_factor = self.a
        self.par = None
        if kind == "kaps1":
            self.par = ctx.real("epsilon", positive=True)
            c.options = {"epsilon": self.par}
        elif kind == "prothero_robinson":
            self.par = ctx.real("lambda")
            c.options = {"lambda_": self.par}

    def values(self, names, prefix):
        return Vec(self.ctx, **{n: self.ctx.reals(prefix + n, self.size) for n in names})

    def at(self, prefix=""):
        return self.values(self.inputs, prefix + "in_")

    def fill(self, vec, names, x):
        for i, n in enumerate(names):
            vec.a[n] = np.array(x[i * self.size : (i + 1) * self.size],
                                dtype=object if self.ctx.symbolic else float)

    def use(self):
        """Everything a component is asked for, at another point with another step size."""
        ctx, c = self.ctx, self.comp
        if not bool(ctx.bool("used")):
            return self
        data = c.om_data_exchange
        h, a = data.step_size, data.stage_factor
        data.step_size = ctx.real("old_h", positive=True)
        data.stage_factor = ctx.real("old_a", positive=True)
        if self.kind == "prothero_robinson":
            ctx.assume(1 - self.par * data.step_size * data.stage_factor != 0)
        x, out = self.at("old_"), self.values(self.outputs, "old_out_")
        res = self.values(self.outputs, "old_r_")
        d_in, d_out = self.at("old_d_"), self.values(self.outputs, "old_d_out_")
        if self.kind.startswith("kaps"):
            if self.kind == "kaps2":
                y = out["y_2"][0]
                ctx.assume(1 + data.stage_factor * data.step_size * (1 + 2 * y) != 0)
            c.apply_nonlinear(x, out, res)
            if hasattr(c, "linearize"):
                c.linearize(x, out, None)
            for mode in ("fwd", "rev"):
                c.apply_linear(x, out, d_in, d_out, res, mode)
                c.solve_linear(d_out, res, mode)
        else:
            c.compute(x, out)
            for mode in ("fwd", "rev"):
                c.compute_jacvec_product(x, d_in, res, mode)
        data.step_size, data.stage_factor = h, a
        ctx.reach("used")
        return self

    # residuals or outputs as a function of inputs (and outputs)
    def function(self, variables):
        def f(x):
            k = len(self.inputs) * self.size
            inp = Vec(self.ctx, **{n: [0.0] * self.size for n in self.inputs})
            self.fill(inp, self.inputs, x[:k])
            res = Vec(self.ctx, **{n: [0.0] * self.size for n in self.outputs})
            if variables == "implicit":
                out = Vec(self.ctx, **{n: [0.0] * self.size for n in self.outputs})
                self.fill(out, self.outputs, x[k:])
                self.comp.apply_nonlinear(inp, out, res)
            else:
                self.comp.compute(inp, res)
            return res.flat(self.outputs)
        return f


def stage_value(c, x, k, old, acc):
    return x[old][0] + c.h * (x[acc][0] + c.a * k)


def equations(ctx, kind):
    """The stage equations hold for what the components compute."""
    c = Comp(ctx, kind).use()
    x = c.at()
    out = c.values(c.outputs, "start_")
    if kind == "kaps1":
        c.comp.solve_nonlinear(x, out)
        k, y = out["y_1_stage"][0], out["y_1"][0]
        ctx.check_eq("value", y, stage_value(c, x, k, "y_1_old", "y_1_accumulated_stages"))
        ctx.check_eq("ode", c.par * k, -(1 + 2 * c.par) * y + x["y_2"][0] * x["y_2"][0])
    elif kind == "kaps2":
        g = x["y_2_old"][0] + c.h * x["y_2_accumulated_stages"][0]
        ah = c.a * c.h
        # k = y1 - (g + ah*k) - (g + ah*k)**2 has a real solution
        ctx.assume((ah + 1) * (ah + 1) + 4 * ah * (g + ah * x["y_1"][0]) >= 0)
        c.comp.solve_nonlinear(x, out)
        k, y = out["y_2_stage"][0], out["y_2"][0]
        ctx.check_eq("value", y, g + c.h * c.a * k)
        ctx.check_eq("ode", k, x["y_1"][0] - y - y * y)
        # the solution that depends continuously on the step size
        lower = 2 * ah * y + ah + 1
        ctx.check("branch", lower >= (0 if ctx.symbolic else -1e-9))
        ctx.reach("explicit" if bool(c.a == 0.0) else "implicit")
    elif kind == "prothero_robinson":
        ctx.assume(1 - c.par * c.h * c.a != 0)
        c.comp.compute(x, out)
        k = out["x_stage"][0]
        y = stage_value(c, x, k, "x", "acc_stages")
        t = x["time"][0]
        s, d = _sin_cos(ctx, t + np.pi / 4)
        ctx.check_eq("ode", k, c.par * (y - s) + d)
        ctx.check_eq("phi", ProtheroRobinson.phi(t), s)
        ctx.check_eq("d_phi", ProtheroRobinson.d_phi(t), d)
    elif kind == "simple":
        c.comp.compute(x, out)
        k = out["y_stage"][0]
        ctx.check_eq("ode", k, -stage_value(c, x, k, "y_old", "y_accumulated_stages"))
    elif kind.startswith("stage_value"):
        c.comp.compute(x, out)
        for i in range(2):
            ctx.check_eq("value", out["stage_value"][i], x["old_value"][i]
                         + c.h * (x["acc_stages"][i] + c.a * x["stage_slope"][i]))
    else:
        ctx.assume(c.a > 0)
        c.comp.compute(x, out)
        for q in ("q", "r")[: 1 if kind == "stage_update" else 2]:
            for i in range(c.size):
                ctx.check_eq("update", x[q][i], x[q + "_old"][i] + c.h * (
                    x[q + "_acc_stages"][i] + c.a * out[q + "_update"][i]))
    if kind.startswith("kaps"):
        # and they are what the residual says
        res = c.values(c.outputs, "res_")
        c.comp.apply_nonlinear(x, out, res)
        for n in c.outputs:
            ctx.check_eq("residual", res[n][0], 0.0)
    ctx.reach("done")


def _sin_cos(ctx, x):
    if ctx.symbolic:
        return ctx.unary("sin", x), ctx.unary("cos", x)
    return np.sin(x), np.cos(x)


def tags(ctx):
    """Each quantity has the tags which the integrator looks for."""
    for kind, q in (("kaps1", ["y_1"]), ("kaps2", ["y_2"]), ("prothero_robinson", ["x"]),
                    ("simple", ["y"]), ("stage_update_two", ["q", "r"])):
        c = Comp(ctx, kind)
        for name in q:
            for role, names in (("step_input_var", c.inputs), ("accumulated_stage_var", c.inputs),
                                ("stage_output_var", c.outputs)):
                found = [n for n in names if {name, role} <= c.tags[n]]
                ctx.check(f"{kind}_{name}_{role}", len(found) == 1)
    c = Comp(ctx, "stage_value")
    for role, n in (("step_input_var", "old_value"), ("accumulated_stage_var", "acc_stages")):
        ctx.check("stage_value", c.tags[n] == {"q", role})
    c = Comp(ctx, "stage_value_untagged")
    ctx.check("untagged", not any(c.tags.values()))
    ctx.reach("done")


def derivatives(ctx, kind, subsets):
    """Products are exact, transposed and added to what is there."""
    c = Comp(ctx, kind)
    if not subsets:
        c.use()
    implicit = kind.startswith("kaps")
    if kind.startswith("stage_update"):
        ctx.assume(c.a > 0)
    if kind == "prothero_robinson":
        ctx.assume(1 - c.par * c.h * c.a != 0)
    x, out = c.at(), c.values(c.outputs, "out_")
    if implicit and hasattr(c.comp, "linearize"):
        c.comp.linearize(x, out, None)
    n_in = [n for n in c.inputs if not subsets or bool(ctx.bool("with_" + n))]
    n_out = [n for n in c.outputs if not implicit or not subsets or bool(ctx.bool("with_" + n))]
    n_res = [n for n in c.outputs if not subsets or bool(ctx.bool("row_" + n))]
    v_in, v_out = c.values(n_in, "v_in_"), c.values(n_out, "v_out_")
    w = c.values(n_res, "w_")
    zero = [0.0] * c.size
    direction = [y for n in c.inputs for y in (v_in[n] if n in n_in else zero)]
    point = x.flat(c.inputs)
    if implicit:
        direction += [y for n in c.outputs for y in (v_out[n] if n in n_out else zero)]
        point += out.flat(c.outputs)
    ref = ctx.derivative(c.function("implicit" if implicit else "explicit"), point, direction)
    ref = {n: ref[i * c.size : (i + 1) * c.size] for i, n in enumerate(c.outputs)}
    # forward
    before = c.values(n_res, "before_")
    got = Vec(ctx, **dict(before.items()))
    if implicit:
        c.comp.apply_linear(x, out, v_in, v_out, got, "fwd")
    else:
        c.comp.compute_jacvec_product(x, v_in, got, "fwd")
    for n in n_res:
        ctx.check_eq("fwd", got[n], [a + b for a, b in zip(before[n], ref[n])], scale=10.0)
    # reverse
    b_in, b_out = c.values(n_in, "b_in_"), c.values(n_out, "b_out_")
    g_in, g_out = Vec(ctx, **dict(b_in.items())), Vec(ctx, **dict(b_out.items()))
    if implicit:
        c.comp.apply_linear(x, out, g_in, g_out, w, "rev")
    else:
        c.comp.compute_jacvec_product(x, g_in, w, "rev")
    lhs = rhs = 0.0
    for n in n_res:
        lhs = lhs + dot(w[n], ref[n])
    for n in n_in:
        rhs = rhs + dot([a - b for a, b in zip(g_in[n], b_in[n])], v_in[n])
    if implicit:
        for n in n_out:
            rhs = rhs + dot([a - b for a, b in zip(g_out[n], b_out[n])], v_out[n])
    ctx.check_eq("rev", rhs, lhs, scale=10.0)
    ctx.reach("done")


def solves(ctx, kind):
    """solve_linear inverts the output part of the system and its transpose."""
    c = Comp(ctx, kind).use()
    x, out = c.at(), c.values(c.outputs, "out_")
    if kind == "kaps2":
        ctx.assume(1 + c.a * c.h * (1 + 2 * out["y_2"][0]) != 0)
    if hasattr(c.comp, "linearize"):
        c.comp.linearize(x, out, None)
    none = Vec(ctx)
    r, s = c.values(c.outputs, "r_"), c.values(c.outputs, "s_")
    r0 = {n: list(v) for n, v in r.items()}
    c.comp.solve_linear(s, r, "fwd")
    back = Vec(ctx, **{n: [0.0] for n in c.outputs})
    c.comp.apply_linear(x, out, none, s, back, "fwd")
    for n in c.outputs:
        ctx.check_eq("fwd", back[n], r0[n])
    r, s = c.values(c.outputs, "w_"), c.values(c.outputs, "z_")
    s0 = {n: list(v) for n, v in s.items()}
    c.comp.solve_linear(s, r, "rev")
    back = Vec(ctx, **{n: [0.0] for n in c.outputs})
    c.comp.apply_linear(x, out, none, back, r, "rev")
    for n in c.outputs:
        ctx.check_eq("rev", back[n], s0[n])
    ctx.reach("done")


def inverse(ctx):
    """The update of a stage value is the slope it was made from."""
    v, u = Comp(ctx, "stage_value"), Comp(ctx, "stage_update")
    ctx.assume(v.a > 0)
    x, out = v.at(), v.values(v.outputs, "out_")
    v.comp.compute(x, out)
    y = Vec(ctx, q=out["stage_value"], q_old=x["old_value"], q_acc_stages=x["acc_stages"])
    up = u.values(u.outputs, "up_")
    u.comp.compute(y, up)
    ctx.check_eq("slope", up["q_update"], list(x["stage_slope"]))
    ctx.reach("done")


def solutions(ctx, which):
    """Analytical solutions: initial condition and ODE."""
    t, t0 = ctx.real("t"), ctx.real("t0")
    if which == "simple":
        y0 = ctx.real("y0")
        f = lambda z: [SimpleLinearODE.simple_linear_solution(z[0], y0, t0)]
        (d,) = ctx.derivative(f, [t], [1.0])
        ctx.check_eq("ode", d, -f([t])[0])
        ctx.check_eq("initial", f([t0])[0], y0)
        ctx.check_eq("default", SimpleLinearODE.simple_linear_solution(0.0), 1.0)
        f = lambda z: [SimpleLinearODE.simple_linear_solution(z[0])]
        ctx.check_eq("ode_default", ctx.derivative(f, [t], [1.0])[0], -f([t])[0])
    elif which == "kaps":
        a, eps = ctx.real("a"), ctx.real("eps", positive=True)
        for f, y1, y2, s in (
            (lambda z: list(KapsGroup.kaps_solution(z[0], arr([a * a, a]), t0)), a * a, a, t0),
            (lambda z: list(KapsGroup.kaps_solution(z[0])), 1.0, 1.0, 0.0),
        ):
            d1, d2 = ctx.derivative(f, [t], [1.0])
            u, v = f([t])
            # for consistent initial values the solution does not depend on epsilon
            ctx.check_eq("ode_1", eps * d1, -(1 + 2 * eps) * u + v * v)
            ctx.check_eq("ode_2", d2, u - v - v * v)
            ctx.check_eq("initial", f([s]), [y1, y2])
        ctx.check_eq("start", KapsGroup.get_initial_values(), [1.0, 1.0])
    else:
        # the stiffness of the default
        x0, lam = ctx.real("x0"), -100.0
        if not ctx.symbolic:
            t0 = t - 0.03 * abs(t0)  # floats: the exponential must stay in range
        for f, init, s in (
            (lambda z: [ProtheroRobinson.solution(z[0], x0, t0)], x0, t0),
            (lambda z: [ProtheroRobinson.solution(z[0])[0]],
             ProtheroRobinson.get_initial_values()[0], 0.0),
        ):
            (d,) = ctx.derivative(f, [t], [1.0])
            u = f([t])[0]
            phi, dphi = ProtheroRobinson.phi(t), ProtheroRobinson.d_phi(t)
            if init is x0:
                ctx.check_eq("ode", d, lam * (u - phi) + dphi, scale=100.0)
                ctx.check_eq("initial", f([s])[0], init)
            else:
                # C = 0 up to rounding of the initial value
                ctx.check_eq("initial_default", ProtheroRobinson.solution(0.0)[0], init)
    ctx.reach("done")


_F = ("KapsComponent1", "KapsComponent2", "KapsGroup.kaps_solution", "ProtheroRobinson",
      "SimpleLinearODE", "StageValueComponent", "StageUpdateComponent")
_B = "new components and components used before at any other point; one entry (utility components: two entries or two quantities), all values, step sizes > 0, stage factors >= 0"
HARNESSES = [
    Harness(equations, quick=[dict(kind=k) for k in KINDS], functions=_F, bounds=_B,
            reach=("done", "explicit", "implicit", "used")),
    Harness(tags, functions=_F, bounds="all bundled components"),
    Harness(
        derivatives,
        quick=[dict(kind=k, subsets=b) for k in KINDS for b in (True, False)],
        functions=_F, reach=("done", "used"), bounds=_B + "; all subsets of variables that are present",
    ),
    Harness(solves, quick=[dict(kind=k) for k in ("kaps1", "kaps2")], functions=_F, bounds=_B),
    Harness(inverse, functions=_F, bounds="two entries, stage factors > 0"),
    Harness(solutions, quick=[dict(which=w) for w in ("simple", "kaps", "prothero_robinson")],
            functions=_F, bounds="all times, initial times and (for Kaps' problem consistent) initial values"),
]
