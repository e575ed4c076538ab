"""Symbolic call histories on one RungeKuttaIntegrator component."""
from vlib.world import *
from vlib.checkpointing import checkpointer_choice


class Fault:
    """Makes the inner model fail at the k-th evaluation after being armed."""

    def __init__(self):
        self.left = None

    def __call__(self, what):
        if self.left is None:
            return
        if self.left == 0:
            self.left = None
            raise om.AnalysisError("planned failure of the inner model")
        self.left -= 1


OPS = ("run", "fwd", "rev", "fail_run", "fail_rev", "fail_fwd", "setup", "nothing")


class History:
    def __init__(self, ctx, layout, s, kind, N, family, world=None, **kw):
        from vlib.layouts import LAYOUTS

        self.ctx, self.N, self.s = ctx, N, s
        self.lay = LAYOUTS[layout]()
        self.tab = tableau(ctx, s, kind)
        self.h = ctx.real("h") if world is None else world["step_size"]
        self.fault = Fault()
        cls, opts, self.cname = checkpointer_choice(ctx, family, N, N)
        self.kw = dict(steps=N, step_size=self.h) if world is None else world
        self.w = World(
            ctx, self.lay, self.tab, checkpointer=cls, checkpoint_options=opts,
            hook=self.fault, **self.kw, **kw
        )
        self.points = {}

    def point(self, name):
        if name not in self.points:
            self.points[name] = flat_inputs(self.ctx, self.lay, name)
        return self.points[name]

    def fresh(self):
        return World(self.ctx, self.lay, self.tab, **self.kw)

    def seed_in(self, name):
        return flat_inputs(self.ctx, self.lay, name)

    def seed_out(self, name):
        return [self.ctx.real(f"{name}{i}") for i in range(self.w.n_out())]

    def do(self, op, k, point):
        """One call; failures planned by the harness are swallowed like a driver would."""
        ctx, w = self.ctx, self.w
        if op == "nothing":
            return
        if op == "setup":
            with quiet():
                w.p.setup()
                w.p.final_setup()
            return
        w.comp_set(self.point(point))
        if op.startswith("fail_"):
            self.fault.left = int(ctx.int(f"fault{k}", 0, self.N * self.s - 1))
        try:
            if op in ("run", "fail_run"):
                w.comp_run()
            elif op in ("fwd", "fail_fwd"):
                w.comp_fwd(self.seed_in(f"sf{k}_"))
            elif op in ("rev", "fail_rev"):
                w.comp_rev(self.seed_out(f"sr{k}_"))
        except om.AnalysisError:
            ctx.reach("failed")
        finally:
            self.fault.left = None


class AdaptivePair:
    """Two adaptive integrators of the same configuration: one with an earlier (possibly
    failing) call at another point, one without."""

    def __init__(self, ctx, layout, steps, rejections, controllers):
        from vlib.layouts import LAYOUTS

        ctx.merge = True
        self.ctx, self.steps, self.rejections = ctx, steps, rejections
        self.controllers = controllers
        self.lay = LAYOUTS[layout]()
        self.tab = tableau(ctx, 1, "erk", embedded=True)
        self.tol, self.h0 = ctx.real("tol", positive=True), ctx.real("h0", positive=True)
        self.tries = 0
        self.seen1, self.seen2 = [], []

    def build(self, fault, seen):
        from rkopenmdao.callback import Callback
        from rkopenmdao.error_controller import (
            ErrorController, ErrorControllerConfig, ErrorControllerDecorator,
            ErrorControllerStatus)
        from rkopenmdao.error_measurer import ErrorMeasurer
        from rkopenmdao.checkpoint_interface.all_checkpointer import AllCheckpointer

        ctx, rejections, controllers = self.ctx, self.rejections, self.controllers

        class Free(ErrorMeasurer):
            def get_measure(self, state_error_estimate, state, ode):
                return abs(ctx.uf("m", *state_error_estimate.stage_state, *state.stage_state))

        class Any_(ErrorController):
            """Any function of its arguments."""

            def __call__(self, *, error_measure, delta_t, remaining_time, error_history,
                         step_size_history):
                a = [error_measure, delta_t, *error_history, *step_size_history]
                self.tries = getattr(self, "tries", 0) + 1
                acc = bool(ctx.ufb("acc", *a) > 0)
                if acc:
                    self.tries = 0
                elif self.tries > rejections:
                    ctx.bound("rejections")
                return ErrorControllerStatus(ctx.ufb("size", *a), acc)

        def estimate(name):
            # the controllers of the repository with any estimate for the next step size
            def f(self, *, error_measure, delta_t, error_history, step_size_history):
                return ctx.ufb(name, error_measure, delta_t, *error_history, *step_size_history)
            return f

        class AnyEstimate(ErrorController):
            _estimate_next_step_function = estimate("e1")

        class AnyDecorator(ErrorControllerDecorator):
            _estimate_next_step_function = estimate("e2")

        class Rec(Callback):
            def after_iteration(self, i, st, ode, sch):
                seen.append([st.step_size_history[0], st.error_history[0],
                             st.discretization_state.final_time[0]])

        def one(p, config=ErrorControllerConfig(), base=None, **kw):
            if controllers == "any":
                return Any_(alpha=1.0, config=config)
            if base is None:
                return AnyEstimate(alpha=1.0, config=config)
            return AnyDecorator(alpha=1.0, error_controller=base)

        make = [one] * dict(decorated=2, nested=3).get(controllers, 1)
        return World(
            ctx, self.lay, self.tab, steps=self.steps, step_size=self.h0, adaptive=True,
            hook=fault, error_measurer=Free(), error_controller=make,
            error_controller_options=dict(
                config=ErrorControllerConfig(tol=self.tol, max_iter=1)),
            checkpointer=AllCheckpointer, compute_callbacks=[Rec()],
            compute_jacvec_product_fwd_callbacks=[Rec()],
        )

    def limit(self):
        pair = self

        class Limit(Fault):
            def __call__(self, what):
                pair.tries += what == "compute"
                if pair.controllers != "any" and pair.tries > pair.steps + pair.rejections:
                    pair.ctx.bound("attempts")
                super().__call__(what)

        return Limit()

    def attempt(self, f, *a):
        from rkopenmdao.errors import ErrorControllerError

        self.tries = 0
        try:
            return f(*a)
        except ErrorControllerError:
            self.ctx.reach("refused")
        except om.AnalysisError:
            self.ctx.reach("failed")
        return None

    def used(self, first):
        """An integrator after the given call at a, set to b."""
        ctx, fault = self.ctx, self.limit()
        w = self.build(fault, self.seen1)
        a = flat_inputs(ctx, self.lay, "a")
        self.b = flat_inputs(ctx, self.lay, "b")
        w.comp_set(a)
        if first.startswith("fail"):
            fault.left = int(ctx.int("fault", 0, self.steps))
        if first.endswith("run"):
            self.attempt(w.comp_run)
        elif first.endswith("fwd"):
            self.attempt(w.comp_fwd, flat_inputs(ctx, self.lay, "v"))
        else:
            self.attempt(w.comp_rev, [ctx.real(f"u{i}") for i in range(w.n_out())])
        fault.left = None
        self.seen1.clear()
        w.comp_set(self.b)
        return w

    def fresh(self):
        v = self.build(self.limit(), self.seen2)
        v.comp_set(self.b)
        return v
