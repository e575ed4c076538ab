"""Symbolic "worlds" around the real integrator.

`Inner` is an OpenMDAO component whose outputs are uninterpreted smooth functions of all
its inputs (so a harness quantifies over every ODE of that layout), `World` puts the real
RungeKuttaIntegrator around it and drives it through OpenMDAO's public API only.
"""
from __future__ import annotations

import contextlib
import io
import os
import sys
import warnings

import numpy as np
import openmdao.api as om

from rkopenmdao.butcher_tableau import ButcherTableau, EmbeddedButcherTableau
from rkopenmdao.components import ExplicitUnsteadyComponent
from rkopenmdao.integration_config import IntegrationConfig
from rkopenmdao.runge_kutta_integrator import RungeKuttaIntegrator
from rkopenmdao.termination_criterion import (
    PredefinedFinalTime,
    PredefinedNumberOfSteps,
)


def arr(x):
    """Array able to hold the current mode's numbers."""
    return np.array(list(x), dtype=object)


# ---------------------------------------------------------------------------
# Butcher tableaux with symbolic coefficients
# ---------------------------------------------------------------------------


def tableau(ctx, s, kind="dirk", embedded=False, name="T", p=2, phat=1, zero_c=False):
    """A tableau with every coefficient symbolic (strict upper triangle zero).

    kind: 'erk' zero diagonal, 'dirk' symbolic diagonal."""
    A = ctx.reals(name + "A", s, s)
    for i in range(s):
        for j in range(s):
            if j > i or (j == i and kind == "erk"):
                A[i, j] = 0.0
    b = ctx.reals(name + "b", s)
    c = ctx.reals(name + "c", s)
    one = np.zeros(s)
    one[0] = 1.0
    kw = dict(
        butcher_matrix=np.zeros((s, s)),
        butcher_weight_vector=one,
        butcher_time_stages=np.zeros(s),
        p=p,
    )
    if embedded:
        t = EmbeddedButcherTableau(butcher_adaptive_weights=one.copy(), phat=phat, **kw)
        t.butcher_adaptive_weights = ctx.reals(name + "e", s)
    else:
        t = ButcherTableau(**kw)
    t.butcher_matrix = A
    t.butcher_weight_vector = b
    t.butcher_time_stages = c
    return t


# ---------------------------------------------------------------------------
# inner problem
# ---------------------------------------------------------------------------


class Quant:
    """A time integrated quantity of the inner problem."""

    def __init__(self, name, shape=(1,), inputs=True):
        self.name = name
        self.shape = shape
        self.inputs = inputs
        self.size = int(np.prod(shape))


class Param:
    """A time independent input of the inner problem."""

    def __init__(self, name, shape=(1,)):
        self.name = name
        self.shape = shape
        self.size = int(np.prod(shape))


class Layout:
    def __init__(self, quants=None, params=(), time=True, unsteady=True):
        self.quants = quants or [Quant("q", (1,))]
        self.params = list(params)
        self.time = time
        self.unsteady = unsteady

    @property
    def n(self):
        return sum(q.size for q in self.quants)

    @property
    def np(self):
        return sum(p.size for p in self.params)


class Inner(ExplicitUnsteadyComponent):
    """Outputs: one uninterpreted function per scalar output, of time, all step inputs,
    all accumulated stage inputs, all parameters, step size and stage factor."""

    def initialize(self):
        self.options.declare("ctx", recordable=False)
        self.options.declare("layout")
        self.options.declare("hook", default=None)

    def setup(self):
        lay = self.options["layout"]
        if lay.time:
            self.add_input("time", tags=["time_variable"])
        for q in lay.quants:
            if q.inputs:
                self.add_input(
                    q.name + "_old", shape=q.shape, tags=[q.name, "step_input_var"]
                )
                self.add_input(
                    q.name + "_acc",
                    shape=q.shape,
                    tags=[q.name, "accumulated_stage_var"],
                )
            self.add_output(
                q.name + "_upd", shape=q.shape, tags=[q.name, "stage_output_var"]
            )
        for p in lay.params:
            self.add_input(
                p.name + "_in", shape=p.shape, tags=[p.name, "time_independent_input_var"]
            )
        self._names = self._inputs_order()

    def _inputs_order(self):
        lay = self.options["layout"]
        names = []
        if lay.time:
            names.append("time")
        for q in lay.quants:
            if q.inputs:
                names.append(q.name + "_old")
        for q in lay.quants:
            if q.inputs:
                names.append(q.name + "_acc")
        for p in lay.params:
            names.append(p.name + "_in")
        return names

    def _args(self, inputs):
        a = []
        for n in self._names:
            a.extend(np.asarray(inputs[n], dtype=object).ravel())
        if self.options["layout"].unsteady:
            a.append(self.om_data_exchange.step_size)
            a.append(self.om_data_exchange.stage_factor)
        return a

    def compute(self, inputs, outputs):
        ctx = self.options["ctx"]
        hook = self.options["hook"]
        if hook is not None:
            hook("compute")
        a = self._args(inputs)
        for q in self.options["layout"].quants:
            v = [ctx.uf(f"F_{q.name}_{i}", *a) for i in range(q.size)]
            if ctx.symbolic:
                v = np.array(v, dtype=object)
            outputs[q.name + "_upd"] = np.asarray(v).reshape(q.shape)

    def compute_jacvec_product(self, inputs, d_inputs, d_outputs, mode):
        ctx = self.options["ctx"]
        hook = self.options["hook"]
        if hook is not None:
            hook(mode)
        a = self._args(inputs)
        for q in self.options["layout"].quants:
            on = q.name + "_upd"
            if on not in d_outputs:
                continue
            do = d_outputs[on]
            for i, oi in enumerate(np.ndindex(*q.shape)):
                k = 0
                for n in self._names:
                    shp = inputs[n].shape
                    for ii in np.ndindex(*shp):
                        if n in d_inputs:
                            J = ctx.duf(f"F_{q.name}_{i}", k, *a)
                            if mode == "fwd":
                                do[oi] = do[oi] + J * d_inputs[n][ii]
                            else:
                                d_inputs[n][ii] = d_inputs[n][ii] + J * do[oi]
                        k += 1


def inner_problem(ctx, layout, hook=None):
    p = om.Problem(reports=False)
    p.model.add_subsystem(
        "inner", Inner(ctx=ctx, layout=layout, hook=hook), promotes=["*"]
    )
    return p


# ---------------------------------------------------------------------------
# reference semantics (the oracle)
# ---------------------------------------------------------------------------


def ode_args(lay, t, old, acc, par, h, aii):
    a = []
    if lay.time:
        a.append(t)
    o = 0
    olds, accs = [], []
    for q in lay.quants:
        if q.inputs:
            olds.extend(old[o : o + q.size])
            accs.extend(acc[o : o + q.size])
        o += q.size
    a.extend(olds)
    a.extend(accs)
    a.extend(par)
    if lay.unsteady:
        a.extend([h, aii])
    return a


def ode(ctx, lay, t, old, acc, par, h, aii):
    a = ode_args(lay, t, old, acc, par, h, aii)
    return [
        ctx.uf(f"F_{q.name}_{i}", *a) for q in lay.quants for i in range(q.size)
    ]


def rk_step(ctx, lay, tab, t, y, par, h, weights=None, stages=None):
    """One Runge-Kutta step as in the textbook; returns (t+h, y+, stage updates)."""
    A, b, c = tab.butcher_matrix, tab.butcher_weight_vector, tab.butcher_time_stages
    ks = []
    for i in range(len(b)):
        acc = [0.0] * len(y)
        for j in range(i):
            acc = [u + A[i, j] * k for u, k in zip(acc, ks[j])]
        ks.append(ode(ctx, lay, t + h * c[i], y, acc, par, h, A[i, i]))
    w = b if weights is None else weights
    yn = list(y)
    for i in range(len(b)):
        yn = [u + h * w[i] * k for u, k in zip(yn, ks[i])]
    return t + h, yn, ks


# ---------------------------------------------------------------------------
# outer problem
# ---------------------------------------------------------------------------


@contextlib.contextmanager
def quiet():
    with open(os.devnull, "w") as f, contextlib.redirect_stdout(f):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield


class World:
    """Real RungeKuttaIntegrator in an OpenMDAO problem."""

    def __init__(
        self,
        ctx,
        layout,
        tab,
        steps=None,
        step_size=None,
        final_time=None,
        adaptive=False,
        checkpointer=None,
        checkpoint_options=None,
        hook=None,
        criterion=None,
        order=None,
        params_order=None,
        inner=None,
        **options,
    ):
        self.ctx = ctx
        self.lay = layout
        self.tab = tab
        with quiet():
            if inner is None:
                inner = inner_problem(ctx, layout, hook)
            self.inner = inner
            if criterion is None:
                criterion = (
                    PredefinedNumberOfSteps(steps)
                    if final_time is None
                    else PredefinedFinalTime(final_time)
                )
            kw = dict(options)
            if checkpointer is not None:
                kw["checkpointing_type"] = checkpointer
                kw["checkpoint_options"] = checkpoint_options or {}
            for k in (
                "compute_callbacks",
                "compute_jacvec_product_fwd_callbacks",
                "compute_jacvec_product_rev_callbacks",
            ):
                kw.setdefault(k, [])
            if layout.params:
                kw["time_independent_input_quantities"] = params_order or [
                    p.name for p in layout.params
                ]
            self.p = om.Problem(reports=False)
            ivc = self.p.model.add_subsystem("ivc", om.IndepVarComp())
            ivc.add_output("t0", shape=1)
            for q in layout.quants:
                ivc.add_output(q.name + "0", shape=q.shape)
            for p in layout.params:
                ivc.add_output(p.name, shape=p.shape)
            self.rk = self.p.model.add_subsystem(
                "rk",
                RungeKuttaIntegrator(
                    time_stage_problem=inner,
                    butcher_tableau=tab,
                    integration_config=IntegrationConfig(
                        adaptive, criterion, step_size
                    ),
                    time_integration_quantities=order
                    or [q.name for q in layout.quants],
                    **kw,
                ),
            )
            self.p.model.connect("ivc.t0", "rk.time_initial")
            for q in layout.quants:
                self.p.model.connect(f"ivc.{q.name}0", f"rk.{q.name}_initial")
            for p in layout.params:
                self.p.model.connect(f"ivc.{p.name}", f"rk.{p.name}")
            self.p.setup()
            self.p.final_setup()

    # names in the order used for flat vectors
    def wrt(self):
        return (
            ["ivc.t0"]
            + [f"ivc.{q.name}0" for q in self.lay.quants]
            + [f"ivc.{p.name}" for p in self.lay.params]
        )

    def of(self):
        return ["rk.time_final"] + [f"rk.{q.name}_final" for q in self.lay.quants]

    def _shapes(self, names):
        d = {"ivc.t0": (1,), "rk.time_final": (1,)}
        for q in self.lay.quants:
            d[f"ivc.{q.name}0"] = d[f"rk.{q.name}_final"] = q.shape
        for p in self.lay.params:
            d[f"ivc.{p.name}"] = p.shape
        return [d[n] for n in names]

    def _split(self, names, flat):
        out, o = {}, 0
        for n, s in zip(names, self._shapes(names)):
            k = int(np.prod(s))
            v = np.array(list(flat[o : o + k]), dtype=object if self.ctx.symbolic else float)
            out[n] = v.reshape(s)
            o += k
        return out

    def _join(self, names, d):
        r = []
        for n in names:
            r.extend(np.asarray(d[n], dtype=object).ravel())
        return r

    def set_inputs(self, x):
        """x: flat [t0, quantities..., parameters...]"""
        for n, v in self._split(self.wrt(), x).items():
            self.p.set_val(n, v)

    def run(self, x=None):
        """Flat [time_final, quantities...] for flat inputs."""
        with quiet():
            if x is not None:
                self.set_inputs(x)
            self.p.run_model()
        return self._join(self.of(), {n: self.p.get_val(n) for n in self.of()})

    def fwd(self, dx):
        with quiet():
            self.p.model.run_linearize()
            r = self.p.compute_jacvec_product(
                self.of(), self.wrt(), "fwd", self._split(self.wrt(), dx)
            )
        return self._join(self.of(), r)

    def rev(self, dy):
        with quiet():
            self.p.model.run_linearize()
            r = self.p.compute_jacvec_product(
                self.of(), self.wrt(), "rev", self._split(self.of(), dy)
            )
        return self._join(self.wrt(), r)

    # component level: the calls OpenMDAO's solvers and drivers make on a component
    def comp_set(self, x):
        inputs, _, _ = self.rk.get_nonlinear_vectors()
        names = ["time_initial"]
        names += [q.name + "_initial" for q in self.lay.quants]
        names += [p.name for p in self.lay.params]
        for n, (_, v) in zip(names, self._split(self.wrt(), x).items()):
            inputs[n] = v

    def comp_run(self):
        with quiet():
            self.rk.run_solve_nonlinear()
        _, outputs, _ = self.rk.get_nonlinear_vectors()
        return self._join(
            ["time_final"] + [q.name + "_final" for q in self.lay.quants], outputs
        )

    def comp_fwd(self, dx):
        d_in, d_out, d_res = self.rk.get_linear_vectors()
        d_in.set_val(0.0)
        d_out.set_val(0.0)
        d_res.set_val(0.0)
        names = ["time_initial"] + [q.name + "_initial" for q in self.lay.quants]
        names += [p.name for p in self.lay.params]
        for n, (_, v) in zip(names, self._split(self.wrt(), dx).items()):
            d_in[n] = v
        with quiet():
            self.rk.run_linearize()
            self.rk.run_apply_linear("fwd")
        r = self._join(
            ["time_final"] + [q.name + "_final" for q in self.lay.quants], d_res
        )
        return r

    def comp_rev(self, dy):
        d_in, d_out, d_res = self.rk.get_linear_vectors()
        d_in.set_val(0.0)
        d_out.set_val(0.0)
        d_res.set_val(0.0)
        names = ["time_final"] + [q.name + "_final" for q in self.lay.quants]
        for n, (_, v) in zip(names, self._split(self.of(), dy).items()):
            d_res[n] = v
        with quiet():
            self.rk.run_linearize()
            self.rk.run_apply_linear("rev")
        names = ["time_initial"] + [q.name + "_initial" for q in self.lay.quants]
        names += [p.name for p in self.lay.params]
        return self._join(names, d_in)

    def comp_names(self):
        return (
            ["time_initial"] + [q.name + "_initial" for q in self.lay.quants]
            + [p.name for p in self.lay.params],
            ["time_final"] + [q.name + "_final" for q in self.lay.quants],
        )

    def comp_apply(self, mode, d_in, d_out, d_res, scope_in=None, scope_out=None):
        """The product as linear solvers ask for it: vectors hold any values, only the
        variables in scope take part.  Returns flat (d_inputs, d_outputs, d_residuals)."""
        vecs = self.rk.get_linear_vectors()
        n_in, n_out = self.comp_names()
        for vec, names, om_names, flat in zip(
            vecs, (n_in, n_out, n_out), (self.wrt(), self.of(), self.of()),
            (d_in, d_out, d_res),
        ):
            for n, (_, v) in zip(names, self._split(om_names, flat).items()):
                vec[n] = v

        def absolute(scope):
            return None if scope is None else frozenset("rk." + n for n in scope)

        with quiet():
            self.rk.run_linearize()
            self.rk.run_apply_linear(mode, absolute(scope_out), absolute(scope_in))
        return tuple(
            self._join(names, vec) for vec, names in zip(vecs, (n_in, n_out, n_out))
        )

    def n_in(self):
        return 1 + self.lay.n + self.lay.np

    def n_out(self):
        return 1 + self.lay.n


def flat_inputs(ctx, lay, name="x"):
    return (
        [ctx.real(name + "_t0")]
        + [
            ctx.real(f"{name}_{q.name}_{i}")
            for q in lay.quants
            for i in range(q.size)
        ]
        + [
            ctx.real(f"{name}_{p.name}_{i}")
            for p in lay.params
            for i in range(p.size)
        ]
    )


def split_inputs(lay, x):
    return x[0], list(x[1 : 1 + lay.n]), list(x[1 + lay.n :])


def dot(a, b):
    r = 0
    for x, y in zip(a, b):
        r = r + x * y
    return r


def run_reference(ctx, lay, tab, x, h, steps):
    """Flat [t, y...] after `steps` textbook steps of size h."""
    t, y, par = split_inputs(lay, x)
    for _ in range(steps):
        t, y, _ = rk_step(ctx, lay, tab, t, y, par, h)
    return [t] + list(y)
