"""Texts for DESIGN.md."""
NOTES = {
"C01": """
Decided by executing `compute_step` and whole `RungeKuttaIntegrator.compute` runs with symbolic
tableau, state, time, step size and an uninterpreted right hand side, and comparing with an independently written textbook
step (`world.rk_step`).  As the right hand side is uninterpreted and receives every input,
equality of outputs forces equality of every argument of every stage.""",
"C02": "As C01 with symbolic embedded weights; a callback captures the states of each step.",
"C03": """
Oracle: the independent textbook step evaluated on dual numbers, whose right hand side has
uninterpreted partial derivatives.  The real forward product must equal it as a polynomial in these atoms.""",
"C04": """
Oracle: w·(J v) from the dual-number reference against v·(real reverse product), for free v
and w, which is equality of the full Jacobian; checkpointers, their options and checkpoint counts are forked.""",
"C05": """
A history of real calls (some failing at a symbolic evaluation) precedes the run under
test; the oracle is the textbook integration, or for adaptive runs a fresh integrator object with the same inputs.""",
"C06": "As C05 for forward and reverse products; points may agree in any subset of components, so stale caches keyed on part of the inputs are found.",
"C07": """
The real checkpointers run over an arbitrary step function (uninterpreted function of *every* leaf of the state, so an
incomplete checkpoint shows).  Steps, checkpoint counts, disk/memory levels are concretised by all-SAT.""",
"C08": "Real controllers called with symbolic errors, step sizes, histories and configuration; the acceptance flag must equal the definition.  A second harness runs the integrator's step loop.",
"C09": "As C08: bounds, remaining time, progress; a fixed harness lets a controller retry repeatedly, one runs until a symbolic final time.",
"C10": "The law is written down independently; powers are normalised (`_pow_normal`); factories are called by name with symbolic order p.",
"C11": "Arbitrary controllers (free decisions and suggestions) and measures drive the real adaptive loop; the reference only makes the accepted steps.",
"C12": "Criteria evaluated symbolically and through integrations with all checkpointers; an arbitrary criterion is a free Boolean per question.",
"C13": """
Arbitrary values and orders; powers are atoms related by their laws; several MPI ranks run as coroutines of
one process with a stand-in for the communicator (`vlib/ranks.py`), the oracle is the norm of the gathered vector.""",
"C14": "All sizes including 0; every array of a state is compared by its path after copies, serialisation and later changes of either side.",
"C15": """
The real `OpenMDAOODE` drives real OpenMDAO models of six structures (flat, nested, explicit sources, one component per quantity with
shared inputs, a chain with an intermediate result, implicit) whose components are uninterpreted functions; the oracle composes these functions directly
and on dual numbers.  Other calls (also failing ones, and invalid values left in the linear vectors) happen in between.  For several processes the model is a stub that
hands out vectors, and each process must transfer its own entries.""",
"C16": """
Each tag of each variable is a symbolic Boolean, decided lazily when the extraction asks for it (a stub answers `get_io_metadata`); acceptance must equal the
definition, and the metadata the mapping it implies.  Names, order, nesting and single faults are also run through OpenMDAO itself and the
integrator's setup; global ranges through several simulated processes.""",
"C17": "All coefficients symbolic (also above the diagonal); the classification's definition is a condition over them, equivalence is checked in both directions. Sizes are forked.",
"C18": """
The real step functions run one system that contains the elementary ODE of every rooted tree (time leaves included) up to
one order beyond the declared one, for a symbolic step size, start time and start state; the result's component of a tree must be its
start value + h^n/density.  By Butcher's theorem this is equivalent to the order for all smooth ODEs.""",
"C19": """
The real component methods run on symbolic vectors; the oracle is the ODE's equation, dual numbers through the real `compute`/`apply_nonlinear`
(for products and for the time derivative of the analytical solutions), and applying the real operator to the real solve's result.
The group of Kaps' problem is solved by OpenMDAO's Newton and Krylov solvers at run time, which is outside.""",
"C20": """
Recording callbacks (0 to 2 per mode, symbolic) note every call with the state they get; the calls of a pass must be exactly the expected sequence
and the states those of the textbook trajectory.  An equal integrator without callbacks gives the results to compare with.  With an arbitrary
controller the expected steps are the accepted ones.""",
"C21": """
Symbolic runs replace h5py by a model of it in memory that holds terms (`vlib/h5stub.py`); replays and sampled paths use the real h5py.
The content of the file is compared with the textbook trajectory.  For several processes each has its own image of the file, structures must
agree and the written parts must be a partition of each data set.""",
}
COST = {}
CAUGHT = {}
