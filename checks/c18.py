"""C18: bundled schemes have their declared orders."""
import functools
import itertools
from math import prod

from vlib.run import Harness
from vlib.world import *
import rkopenmdao.butcher_tableaux as bundled
from rkopenmdao.discretized_ode.discretized_ode import (
    DiscretizedODE, DiscretizedODEInputState, DiscretizedODEResultState,
)
from rkopenmdao.time_discretization.stage_ordered_runge_kutta_discretization import (
    StageOrderedEmbeddedRungeKuttaDiscretization, StageOrderedRungeKuttaDiscretization,
)
from rkopenmdao.time_discretization.time_discretization_scheme_interface import (
    TimeDiscretizationStartingValues,
)

TOL = 1e-9
ASSUMPTIONS = [
    "real arithmetic on the float coefficients of the tableaux; order conditions hold up to "
    f"{TOL}, as the coefficients are rounded",
    "B-series theorem (Butcher): a Runge-Kutta step has order p for all smooth ODEs exactly if it "
    "is exact for the elementary ODE of each rooted tree with up to p nodes (nodes "
    "for time dependence included)",
]

T = "t"  # leaf: dependence on time


@functools.lru_cache(None)
def trees(n):
    """Rooted trees of n nodes, as sorted tuples of children; leaves may be time."""
    if n == 1:
        return [()]
    res = set()
    for part in partitions(n - 1):
        for kids in itertools.product(*[(trees(k) + [T] if k == 1 else trees(k)) for k in part]):
            res.add(tuple(sorted(kids, key=repr)))
    return sorted(res, key=repr)


def partitions(n, most=None):
    if n == 0:
        yield ()
    for k in range(min(n, most or n), 0, -1):
        for rest in partitions(n - k, k):
            yield (k,) + rest


@functools.lru_cache(None)
def size(tree):
    return 1 if tree == T else 1 + sum(size(c) for c in tree)


@functools.lru_cache(None)
def gamma(tree):
    """Density: the exact solution of the tree's ODE is h^size/gamma."""
    return 1 if tree == T else size(tree) * prod(gamma(c) for c in tree)


class TreeODE(DiscretizedODE):
    """y_tree' = product of y_child - y0_child and t - t0 for the children of the tree."""

    def __init__(self, ctx, order, origin):
        self.ctx = ctx
        self.trees = [t for n in range(1, order + 1) for t in trees(n)]
        self.pos = {t: i for i, t in enumerate(self.trees)}
        n = len(self.trees)
        self.y0 = ctx.reals("y", n) if origin else self._mk([0.0] * n)
        self.t0 = ctx.real("t") if origin else 0.0

    def _mk(self, x):
        return np.array(list(x), dtype=object if self.ctx.symbolic else float)

    def compute_update(self, ode_input, step_size, stage_factor):
        k, y = [], []
        for i, t in enumerate(self.trees):
            v = 1.0
            for c in t:
                v = v * ((ode_input.time - self.t0) if c == T else y[self.pos[c]])
            k.append(v)
            y.append(ode_input.step_input[i] - self.y0[i]
                     + step_size * (ode_input.stage_input[i] + stage_factor * v))
        return DiscretizedODEResultState(
            self._mk(k), self._mk(a + b for a, b in zip(y, self.y0)), self._mk([]), self._mk([0.0])
        )

    def compute_update_derivative(self, *a):
        raise NotImplementedError

    compute_update_adjoint_derivative = compute_update_derivative

    def compute_state_norm(self, state):
        return 0.0

    def get_state_size(self):
        return len(self.trees)

    def get_independent_input_size(self):
        return 0

    get_independent_output_size = get_independent_input_size

    def get_linearization_point_size(self):
        return 1


def _slack(ctx):
    """Rounding errors of runs with floats."""
    return 0.0 if ctx.symbolic else 1e-12


def _exact(ctx, label, ode, result, h, order):
    for t in ode.trees:
        n = size(t)
        if n <= order:
            d = result[ode.pos[t]] - ode.y0[ode.pos[t]] - h**n * (1.0 / gamma(t))
            b = TOL * h**n + _slack(ctx)
            ctx.check(f"{label}_{t}", (d <= b) & (-d <= b))


def _not_better(ctx, label, ode, result, h, order):
    """Some condition of the next order fails."""
    bad = None
    for t in ode.trees:
        n = size(t)
        if n == order + 1:
            d = result[ode.pos[t]] - ode.y0[ode.pos[t]] - h**n * (1.0 / gamma(t))
            c = (d > 1e-6 * h**n) | (-d > 1e-6 * h**n)
            bad = c if bad is None else bad | c
    ctx.check(label, bad)


def scheme(ctx, name, sharp, origin):
    tab = getattr(bundled, name)
    emb = tab.is_embedded
    p, phat = tab.p, tab.phat if emb else 0
    ctx.check("usable", not tab.is_implicit())
    ode = TreeODE(ctx, max(p, phat) + int(sharp), origin)
    h = ctx.real("h")
    ctx.assume((h > 0) & (h <= 1))
    disc = (StageOrderedEmbeddedRungeKuttaDiscretization if emb
            else StageOrderedRungeKuttaDiscretization)(tab)
    st = disc.time_discretization_starting_scheme(
        ode, TimeDiscretizationStartingValues(ode.t0, ode.y0.copy(), ode._mk([])), h)
    st = disc.compute_step(ode, st, h)
    ctx.check_eq("time", st.final_time[0], ode.t0 + h)
    _exact(ctx, "main", ode, st.final_state, h, p)
    if sharp:
        _not_better(ctx, "main_order_is_sharp", ode, st.final_state, h, p)
    if emb:
        _exact(ctx, "embedded", ode, st.embedded_state, h, phat)
        if sharp:
            _not_better(ctx, "embedded_order_is_sharp", ode, st.embedded_state, h, phat)
        # the estimate has the order of the lower one
        q = min(p, phat)
        for t in ode.trees:
            if size(t) <= q:
                e = st.error_estimate[ode.pos[t]]
                b = 2 * TOL * h ** size(t) + _slack(ctx)
                ctx.check(f"estimate_{t}", (e <= b) & (-e <= b))
    ctx.reach("done")


def steps(ctx, name):
    """Steps of different sizes, each from where the one before got to."""
    tab = getattr(bundled, name)
    p = tab.p
    ode = TreeODE(ctx, p, False)
    h = [ctx.real("h"), ctx.real("g")]
    for x in h:
        ctx.assume((x > 0) & (x <= 1))
    disc = StageOrderedRungeKuttaDiscretization(tab)
    st = disc.time_discretization_starting_scheme(
        ode, TimeDiscretizationStartingValues(ode.t0, ode.y0.copy(), ode._mk([])), h[0])
    for x in h:
        st = disc.compute_step(ode, st, x)
    _exact(ctx, "main", ode, st.final_state, h[0] + h[1], p)
    ctx.reach("done")


def names(embedded=None):
    return [k for k, v in sorted(vars(bundled).items()) if isinstance(v, ButcherTableau)]


_F = ("rkopenmdao.butcher_tableaux", "StageOrderedRungeKuttaDiscretization.compute_step",
      "StageOrderedEmbeddedRungeKuttaDiscretization.compute_step")
HARNESSES = [
    Harness(
        scheme, quick=[dict(name=n, sharp=True, origin=True) for n in names()],
        functions=_F,
        bounds="every bundled tableau, all trees up to one order beyond the declared one, all step sizes in (0, 1]",
        stubs=("ODE: the elementary ODE of every tree at once",),
    ),
    Harness(
        steps, quick=[dict(name=n) for n in names()], functions=_F,
        bounds="two steps of all sizes in (0, 1]",
        stubs=("ODE: the elementary ODE of every tree at once",),
    ),
]
