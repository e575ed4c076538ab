"""Two (or more) processes in one: a function is run for every rank, collective calls are
completed by re-running the ranks until all of them have got past the collective."""
from __future__ import annotations

import numpy as np
from mpi4py import MPI


class _Blocked(BaseException):
    pass


class Rank:
    """The part of mpi4py's communicator that is used."""

    def __init__(self, rank, size, results):
        self.rank, self.size = rank, size
        self.calls = 0
        self.results = results
        self.pending = None

    def bind(self, other):
        """Continue with the calls of another communicator object of this rank."""
        self._to = other

    def allreduce(self, value, op=MPI.SUM):
        to = getattr(self, "_to", None)
        if to is not None:
            return to.allreduce(value, op)
        k = self.calls
        self.calls += 1
        if k < len(self.results):
            return self.results[k]
        self.pending = ("allreduce", value, op)
        raise _Blocked()

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size


def _combine(values, op):
    r = values[0]
    for v in values[1:]:
        if op == MPI.SUM:
            r = r + v
        elif op == MPI.MAX:
            r = v if bool(v > r) else r
        elif op == MPI.MIN:
            r = v if bool(v < r) else r
        elif op == MPI.LAND:
            r = bool(r) and bool(v)
        elif op == MPI.LOR:
            r = bool(r) or bool(v)
        elif op == MPI.PROD:
            r = r * v
        else:
            raise NotImplementedError(op)
    return r


def run_ranks(size, f):
    """[f(communicator of rank r) for each r]; f must be repeatable."""
    results = []
    while True:
        comms = [Rank(r, size, results) for r in range(size)]
        out = []
        for c in comms:
            try:
                out.append(f(c))
            except _Blocked:
                out.append(None)
        blocked = [c.pending is not None for c in comms]
        if not any(blocked):
            return out
        if not all(blocked):
            raise AssertionError("processes disagree about a collective call")
        op = comms[0].pending[2]
        if any(c.pending[2] != op for c in comms):
            raise AssertionError("processes disagree about the operation")
        results.append(_combine([c.pending[1] for c in comms], op))


class _Model:
    """Metadata of an OpenMDAO model on one process of several, as get_io_metadata
    reports it."""

    def __init__(self, comm, spec, params):
        self.comm, self.spec, self.params = comm, spec, params
        self._var_sizes = {"input": self._sizes("input"), "output": self._sizes("output")}
        self._var_allprocs_abs2idx = {}
        for io in ("input", "output"):
            for i, (n, *_ ) in enumerate(self._vars(io)):
                self._var_allprocs_abs2idx[n] = i

    def _vars(self, io):
        r = []
        for q, (sizes, dist, *tail) in self.spec.items():
            dist = (dist, tuple(tail[0]) if tail else ())
            if io == "input":
                r.append((q + "_old", q, "step_input_var", sizes, dist))
                r.append((q + "_acc", q, "accumulated_stage_var", sizes, dist))
            else:
                r.append((q + "_upd", q, "stage_output_var", sizes, dist))
        if io == "input":
            for q, (sizes, dist, *tail) in self.params.items():
                dist = (dist, tuple(tail[0]) if tail else ())
                r.append((q + "_in", q, "time_independent_input_var", sizes, dist))
        return r

    def _sizes(self, io):
        v = self._vars(io)
        a = np.zeros((self.comm.size, len(v)), dtype=int)
        for j, (_, _, _, sizes, (_, tail)) in enumerate(v):
            for r, s in enumerate(sizes):
                a[r, j] = (s or 0) * int(np.prod(tail))
        return a

    def get_io_metadata(self, iotypes=("input", "output"), metadata_keys=None, includes=None,
                        excludes=None, is_indep_var=None, is_design_var=None, tags=(),
                        get_remote=False, rank=None, return_rel_names=True):
        if isinstance(iotypes, str):
            iotypes = (iotypes,)
        if isinstance(tags, str):
            tags = [tags]
        out = {}
        for io in ("input", "output"):
            if io not in iotypes:
                continue
            for n, q, kind, sizes, (dist, tail) in self._vars(io):
                t = {q, kind}
                if tags and not t & set(tags):
                    continue
                size = sizes[self.comm.rank]
                if size is None and not get_remote:
                    continue
                some = next(s for s in sizes if s is not None)
                total = sum(sizes) if dist else some
                meta = dict(
                    tags=t, shape=(some if size is None else size, *tail),
                    global_shape=(total, *tail),
                    prom_name=n, discrete=False, distributed=dist,
                )
                keys = metadata_keys or list(meta)
                out[n] = {k: v for k, v in meta.items() if k in keys or k in ("prom_name", "discrete")}
        return out

    def system_iter(self, **kw):
        return []

    # set by a harness that runs the model
    handler = None

    def get_nonlinear_vectors(self):
        if self.handler is not None:
            return self.handler.nonlinear
        v = _Vector()
        return v, v, v

    def get_linear_vectors(self):
        return self.handler.linear

    def run_solve_nonlinear(self):
        self.handler.solve()

    def run_linearize(self, *args, **kw):
        pass

    def run_solve_linear(self, mode):
        self.handler.solve_linear(mode)

    def get_source(self, name):
        return name


class _Vector:
    """No values: the model itself is not run."""

    def asarray(self, copy=False):
        return np.zeros(0)


class _Problem:
    pass


def problem_of_rank(comm, spec, params=None):
    """spec: {quantity: ((size on rank 0, size on rank 1, ...), distributed)}, with size
    None where the quantity does not exist.  A third entry gives the shape of
    the further axes.  params: the same for the time independent inputs."""
    p = _Problem()
    p.comm = comm
    p.model = _Model(comm, spec, params or {})
    return p
