"""A DiscretizedODE whose every output is an uninterpreted smooth function."""
from __future__ import annotations

import numpy as np

from rkopenmdao.discretized_ode.discretized_ode import (
    DiscretizedODE,
    DiscretizedODEInputState,
    DiscretizedODEResultState,
)


class SymODE(DiscretizedODE):
    """State size n, m independent inputs, r independent outputs.

    update_i, state_i, out_i are functions of (time, step input, stage input,
    independent input, step size, stage factor); the linearization point is the
    argument vector itself, so derivatives are taken where the caller says."""

    def __init__(self, ctx, n, m=0, r=0):
        self.ctx, self.n, self.m, self.r = ctx, n, m, r
        self.calls = []

    def _mk(self, xs):
        return np.array(list(xs), dtype=object if self.ctx.symbolic else float)

    def nargs(self):
        return 1 + 2 * self.n + self.m

    def outs(self):
        return (
            [f"U{i}" for i in range(self.n)]
            + [f"S{i}" for i in range(self.n)]
            + [f"O{i}" for i in range(self.r)]
        )

    def args(self, t, old, acc, ind):
        return [t, *old, *acc, *ind]

    def f(self, name, args, h, a):
        return self.ctx.uf(name, *args, h, a)

    def compute_update(self, ode_input, step_size, stage_factor):
        args = self.args(
            ode_input.time,
            ode_input.step_input,
            ode_input.stage_input,
            ode_input.independent_input,
        )
        self.calls.append(("compute", list(args), step_size, stage_factor))
        v = [self.f(o, args, step_size, stage_factor) for o in self.outs()]
        n = self.n
        return DiscretizedODEResultState(
            self._mk(v[:n]), self._mk(v[n : 2 * n]), self._mk(v[2 * n :]), self._mk(args)
        )

    def jac(self, lin, h, a):
        lin = list(lin)
        return [
            [self.ctx.duf(o, k, *lin, h, a) for k in range(self.nargs())]
            for o in self.outs()
        ]

    def compute_update_derivative(self, pert, step_size, stage_factor):
        dx = self.args(
            pert.time, pert.step_input, pert.stage_input, pert.independent_input
        )
        J = self.jac(pert.linearization_point, step_size, stage_factor)
        v = []
        for row in J:
            s = 0
            for j, d in zip(row, dx):
                s = s + j * d
            v.append(s)
        n = self.n
        return DiscretizedODEResultState(
            self._mk(v[:n]), self._mk(v[n : 2 * n]), self._mk(v[2 * n :])
        )

    def compute_update_adjoint_derivative(self, pert, step_size, stage_factor):
        w = [*pert.stage_update, *pert.stage_state, *pert.independent_output]
        J = self.jac(pert.linearization_point, step_size, stage_factor)
        g = []
        for k in range(self.nargs()):
            s = 0
            for row, wi in zip(J, w):
                s = s + row[k] * wi
            g.append(s)
        n = self.n
        return DiscretizedODEInputState(
            self._mk(g[1 : 1 + n]),
            self._mk(g[1 + n : 1 + 2 * n]),
            self._mk(g[1 + 2 * n :]),
            g[0],
        )

    def compute_state_norm(self, state):
        return self.ctx.uf("norm", *state.stage_state)

    def get_state_size(self):
        return self.n

    def get_independent_input_size(self):
        return self.m

    def get_independent_output_size(self):
        return self.r

    def get_linearization_point_size(self):
        return self.nargs()
