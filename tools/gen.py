"""Writes properties.jsonl and MANIFEST.json (run after editing PROPS)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/rkopenmdao/"
RK = S + "runge_kutta_integrator.py"
DISC = S + "time_discretization/stage_ordered_runge_kutta_discretization.py"
DSTATE = S + "time_discretization/runge_kutta_discretization_state.py"
CP = S + "checkpoint_interface/"
OODE = S + "discretized_ode/openmdao_ode.py"
EC, ECS, EM = S + "error_controller.py", S + "error_controllers.py", S + "error_measurer.py"


def P(id, title, statement, over, q, why, files, mech, observe=(), note=""):
    return dict(id=id, title=title, statement=statement, over=over, q=q, why=why,
                files=files, mech=mech, observe=list(observe), note=note)


PROPS = [
P("C01", "A time step is the step of the given Butcher tableau",
  "For every (diagonally implicit or explicit) Butcher tableau, every ODE, start time, "
  "start state, parameter value and step size, one step evaluates stage i at time t + h*c_i "
  "with the step's start state, the accumulated stage input sum over j<i of a_ij*k_j, the "
  "step size h and the stage factor a_ii, and results in y + h * sum of b_i*k_i at time t + h. "
  "An integration over N steps is N such steps, each starting from the result of the one "
  "before, and its outputs are the time and quantities after the last of them (the initial "
  "ones if there are no steps).",
  ["inputs", "programs", "configurations"],
  "all tableau coefficients, states, parameters, times, step sizes; all right hand sides; all numbers of steps and quantity layouts within the bounds",
  "Tests integrate a few ODEs with bundled tableaux and compare to tolerances; errors that cancel for those (c_i mixed up for autonomous ODEs, zero coefficients, several quantities) pass.",
  [DISC, RK, OODE],
  [("compute_step: stage loop, accumulation and final update", DISC), ("compute: time loop and transfer of inputs and outputs", RK)],
  ["outputs of the integrator component", "state returned by a step"]),
P("C02", "Embedded solution and error estimate are those of the tableau",
  "With an embedded tableau every step also delivers y + h * sum of bhat_i*k_i and, as error "
  "estimate, the difference of the main and the embedded solution of that same step, from the "
  "stages of that same step. The time integration itself continues with the main solution.",
  ["inputs", "programs", "configurations"],
  "all coefficients, states, step sizes, right hand sides, consecutive steps within the bounds",
  "Tests check a few bundled embedded schemes on scalar ODEs; estimates left over from other steps or components are not distinguished.",
  [DISC, DSTATE, RK],
  [("compute_error_estimate and embedded update", DISC), ("embedded state set", DSTATE)],
  ["state seen by callbacks after each step"]),
P("C03", "Forward mode derivatives are exact",
  "For every tableau, ODE with exact partial derivatives, input point and input perturbation "
  "the forward product of a step, and of a whole integration with fixed step size, equals the "
  "exact directional derivative of what the primal computation does, with respect to all "
  "initial values, the initial time and all parameters. This includes every combination of "
  "quantities, parameters and time dependence of the stage problem. Whatever linear solver surrounds the "
  "integrator: products are added to what is in the vectors, and variables out of scope take no part.",
  ["inputs", "programs", "configurations"],
  "all tableau coefficients, points, perturbation directions, ODEs; layouts and numbers of steps within the bounds",
  "Tests compare against finite differences for a few ODEs to about 1e-6 at fixed points; terms that vanish there are not seen.",
  [DISC, RK, OODE],
  [("compute_step_derivative", DISC), ("forward mode time loop", RK), ("compute_update_derivative", OODE)],
  ["jacobian vector products of the component"]),
P("C04", "Reverse mode is the transpose of forward mode",
  "For every tableau, ODE, input point, number of steps and every pair of an input perturbation "
  "v and an output seed w: the product of the seed with the forward result equals the product "
  "of v with the reverse result, for a single step as well as for the whole integration. This "
  "holds with every checkpointing strategy that supports reverse mode, every strategy option "
  "and every checkpoint number, and for every set of variables a surrounding linear solver has in scope.",
  ["inputs", "programs", "configurations"],
  "all coefficients, points, seeds and perturbations, checkpointers with options, numbers of steps within the bounds",
  "Tests check a handful of problems with fixed numbers of steps and checkpoints.",
  [DISC, RK, CP + "pyrevolve_checkpointer.py", CP + "all_checkpointer.py", OODE],
  [("compute_step_adjoint_derivative", DISC), ("iterate_reverse", CP + "pyrevolve_checkpointer.py")],
  ["reverse jacobian vector products of the component"]),
P("C05", "Outputs of an integration depend on its inputs only",
  "What an integration returns is determined by the current inputs and configuration: earlier "
  "integrations, forward or reverse products, failed integrations, repeated setups, other "
  "integrators and options objects shared with them do not change it, and neither does the "
  "choice of checkpointing strategy. Computing derivatives does not change the outputs.",
  ["histories", "inputs", "fault_sequences", "configurations"],
  "all histories of calls (also failing at any evaluation) up to the stated length, all inputs, all checkpointers",
  "Tests run one integration per integrator object; stale state between calls needs particular call sequences.",
  [RK, CP + "checkpoint_interface.py", CP + "pyrevolve_checkpointer.py", EC],
  [("compute and _compute_checks", RK), ("reset of checkpointer and error control", RK)],
  ["outputs of the integrator component"]),
P("C06", "Gradients are those of the current inputs after any history",
  "A forward or reverse product requested at the current inputs is the one of the integration "
  "at the current inputs, whatever integrations, products, failures during them, or repeated "
  "setups happened before and at whichever inputs. In particular stored checkpoints are only "
  "reused if they belong to the current inputs (initial values, initial time and parameters).",
  ["histories", "inputs", "fault_sequences"],
  "all histories of two (three, four) calls at points that may agree in any component, failing at any evaluation",
  "Needs call sequences where cached checkpoints go stale in exactly one input; tests linearise right after running.",
  [RK, CP + "pyrevolve_checkpointer.py", CP + "all_checkpointer.py"],
  [("cached inputs and checkpoint reuse", RK)],
  ["jacobian vector products of the component"]),
P("C07", "Checkpointing replays each step once, backwards, with its own state",
  "For every number of steps (also zero and one), number of checkpoints and strategy option, a "
  "reverse pass visits every step exactly once, from the last to the first, each with exactly "
  "the complete state the forward pass had for that step, including step size and error "
  "histories and whatever multi level scheme or embedded scheme data there is. The forward pass "
  "visits steps 1 to N once in order and its result equals that without checkpointing, and a "
  "checkpointer can be used again for further passes.",
  ["schedules", "inputs", "configurations", "histories"],
  "all numbers of steps and checkpoints within the bounds, arbitrary step functions, in-place or copying",
  "Tests fix a few numbers of steps and compare gradients; states that are aliased or incomplete only matter for particular schedules.",
  [CP + "pyrevolve_checkpointer.py", CP + "all_checkpointer.py", CP + "no_checkpointer.py", CP + "runge_kutta_integrator_pyrevolve_classes.py"],
  [("forward / reverse operators and checkpoint data", CP + "runge_kutta_integrator_pyrevolve_classes.py"), ("revolver set up", CP + "pyrevolve_checkpointer.py")],
  ["calls of the step functions with their states"]),
P("C08", "A step is accepted exactly if its error is within tolerance",
  "An error controller, plain or decorating others, accepts a step if and only if the error "
  "measure does not exceed the tolerance or the step already has the lower bound of the step "
  "size, regardless of the remaining time, histories and earlier calls. An adaptive integration "
  "therefore never continues from a step above the lower bound whose error exceeds the tolerance, "
  "and only repeats steps whose error exceeds it.",
  ["inputs", "configurations", "histories"],
  "all errors, step sizes, remaining times, histories, tolerances, bounds, exponents; decorated controllers; sequences of calls",
  "The decision depends on corner cases (last step, bounds, rejected histories) that sampled runs rarely hit.",
  [EC, RK],
  [("acceptance decision", EC), ("step repetition", RK)],
  ["status returned by the controller", "states seen by callbacks"]),
P("C09", "Suggested step sizes respect the bounds, the end and make progress",
  "Every suggested step size is at most the upper bound, at least the lower bound unless less "
  "time remains, and never goes past the remaining time; after an accepted step it is positive "
  "while time remains; after a rejected step it is positive and strictly smaller than the "
  "rejected one, or the controller reports an error instead of repeating the step forever. An "
  "adaptive integration until a final time whose first step fits thus advances with every step "
  "and ends exactly at the final time.",
  ["inputs", "configurations", "histories"],
  "all errors (also zero), histories, bounds, exponents, remaining times; sequences of retries",
  "Tests run well behaved problems; zero errors, finite bounds combined with short remaining times and unusual exponents are not covered.",
  [EC, ECS, S + "termination_criterion.py", RK],
  [("clipping of the step size", EC), ("remaining_time", S + "termination_criterion.py")],
  ["step size suggestions", "times of the accepted steps"]),
P("C10", "Controllers follow their step size law; named ones have published exponents",
  "A controller suggests the product of safety factor, step size and the powers of tolerance "
  "over error, of the two previous errors and of the two step size ratios with its exponents "
  "(history entries that are zero are left out, an error of zero keeps the step size), limited "
  "by the bounds and the remaining time. Every controller available by name has the published "
  "exponents divided by the order it is asked for. A decorating controller takes over the "
  "suggestion of the controller it decorates unless that one cannot shrink a rejected step or "
  "has been rejected the maximal number of times, in which case it applies its own law.",
  ["inputs", "configurations", "histories"],
  "all exponents, errors, histories, configurations; sequences of calls; orders; controller names",
  "Tests compare single values; wrong exponents or stale rejection counters still give convergent runs.",
  [EC, ECS],
  [("_estimate_next_step_function", EC), ("factories", ECS), ("decorator fallback", EC)],
  ["step size suggestions"]),
P("C11", "Rejected attempts leave no trace in adaptive integrations",
  "The result, the sequence of states, times and step sizes, the histories handed to controller "
  "and error measure, and the forward and reverse derivatives (step sizes held fixed) of an "
  "adaptive integration are those of the sequence of its accepted steps alone, whatever attempts "
  "were rejected in between. Every step is tried with the step size suggested last, and after an "
  "acceptance the histories hold the latest accepted step sizes and errors, newest first.",
  ["inputs", "histories", "programs"],
  "all patterns of acceptance and rejection, all suggestions, right hand sides and error measures within the bounds",
  "Tests compare adaptive results to tolerances; contamination by rejected attempts is of the order of the tolerance.",
  [RK, S + "time_integration_state.py", DSTATE],
  [("_iterate_on_step", RK), ("histories in the integration state", S + "time_integration_state.py")],
  ["outputs, callbacks, controller arguments, jacobian vector products"]),
P("C12", "Integrations stop exactly when their termination criterion says so",
  "With a predefined number of steps N, exactly N steps are made in the primal, forward and "
  "reverse computation; with a predefined final time, steps are made until the time has reached "
  "it, and none after that. Any other criterion is asked before each step with the number of "
  "finished steps and their current state, and obeyed.",
  ["inputs", "configurations", "schedules"],
  "all numbers of steps, times, step sizes, arbitrary criteria, checkpointers",
  "Zero steps, final times that are hit exactly or already passed, and reverse replay of the same number of steps are not sampled.",
  [S + "termination_criterion.py", RK, CP + "pyrevolve_checkpointer.py"],
  [("is_iteration_finished", S + "termination_criterion.py")],
  ["steps seen by callbacks", "time_final output"]),
P("C13", "Error measures and state norms are what they claim to be",
  "The norm of a state of the OpenMDAO problem is the vector p-norm (for every p >= 1 and "
  "infinity) of the values of all time integration quantities that are not excluded, no matter how these are "
  "split into quantities or distributed over processes, and values of excluded quantities have "
  "no influence. The simple error measure is the norm of the error estimate, the improved one "
  "the norm of the estimate divided by the norm of the state plus eta/eps.",
  ["inputs", "configurations", "programs"],
  "all state values, orders 1, 2, 3 and infinity, all exclusions, all distributions over up to two processes",
  "Distributed quantities and orders besides 2 are hardly tested; mixing of both not at all.",
  [OODE, EM],
  [("compute_state_norm", OODE), ("get_measure", EM)],
  ["returned measures and norms"]),
P("C14", "States are copied and serialised completely and independently",
  "Setting a time discretization state or integration state from another one copies "
  "every part of it, without sharing memory, so later changes of one never show in the other. "
  "Converting a state into a dictionary and creating a state from that dictionary gives the same "
  "values in every part, whatever the sizes, and a deep copy is equal and independent as well.",
  ["inputs", "configurations", "histories"],
  "all values, sizes (also zero), plain and embedded states",
  "Tests cover few fields with particular values; aliased memory shows only after later steps.",
  [DSTATE, S + "time_integration_state.py", S + "time_discretization/time_discretization_scheme_interface.py"],
  [("set / to_dict / from_dict", DSTATE)],
  ["values of the states"]),
P("C15", "The OpenMDAO stage problem is driven faithfully",
  "For every layout of quantities, a stage evaluation hands exactly the given time, step inputs, stage inputs, "
  "parameters, step size and stage factor to the OpenMDAO problem and returns exactly its stage "
  "outputs, every entry at its own place. Derivatives are taken at the linearization point that is "
  "given along, no matter what was evaluated in between, and their adjoint is the exact transpose; "
  "results do not depend on leftovers of earlier evaluations.",
  ["inputs", "programs", "histories", "configurations"],
  "all values, right hand sides, layouts and orders of quantities and calls within the bounds",
  "Index and shape mistakes cancel for equal sized quantities or symmetric matrices; stale linearization points cancel in linear problems.",
  [OODE, S + "metadata_extractor.py"],
  [("vector transfers and linearization point", OODE), ("index ranges", S + "metadata_extractor.py")],
  ["results of stage evaluations and their derivatives"]),
P("C16", "Tags of the stage problem are mapped correctly or rejected",
  "Every stage problem with proper tags is accepted: each requested quantity has exactly one output with the role "
  "of the stage update and either no inputs or exactly one with each of the two input roles, of the same size; each requested "
  "time independent input exactly one input; there is at most one time variable, a scalar. Variables are "
  "found through their tags only (names, order, nesting and other tagged variables are irrelevant), and every quantity gets "
  "a range of indices of its own which together cover the state vector, and on several processes its own part of the global range. "
  "A stage problem with a missing or surplus variable for a requested quantity, "
  "a variable of one with several roles, with a role meant for the other kind of variable or of several requested "
  "quantities, or with mismatched sizes, is rejected at setup.",
  ["configurations", "programs"],
  "all combinations of tags on up to the stated number of variables",
  "The number of tag combinations is exponential; tests check some dozen.",
  [S + "metadata_extractor.py", RK],
  [("extract_time_integration_metadata", S + "metadata_extractor.py")],
  ["errors at setup", "metadata of the quantities"]),
P("C17", "Butcher tableaux are classified and validated correctly",
  "Every tableau is exactly one of explicit (no nonzero entry on or above the diagonal), diagonally implicit "
  "(none above, some on it) and implicit, and reports its number of stages, its order(s), the smaller one as its minimal order, "
  "and whether it is embedded; its main and embedded methods and a tableau made from another one have the same coefficients and orders. "
  "Tableaux of inconsistent sizes are rejected, all others accepted; weights that noticeably do not sum up to one, or rows "
  "that do not sum up to the time stages, cause a warning each, and nothing else does. Time stages that are not given are the row sums.",
  ["inputs", "configurations"],
  "all coefficients of tableaux with up to four stages, all combinations of sizes",
  "Tests only query bundled tableaux.",
  [S + "butcher_tableau.py"],
  [("properties and validation", S + "butcher_tableau.py")],
  ["properties of the tableau, errors and warnings at construction"]),
P("C18", "Bundled schemes have their declared order, embedded ones too",
  "Every bundled scheme can be used stage by stage, and its steps reproduce the Taylor expansion of "
  "the exact solution of every smooth (also time dependent) ODE up to its declared order and not to the next one; "
  "the same holds for its embedded solution and the declared embedded order, so the error estimate is of the lower "
  "of both orders. This holds for steps of any size, also in sequence.",
  ["inputs", "programs"],
  "all smooth right hand sides (through the elementary ODEs of all rooted trees), all step sizes in (0, 1]",
  "Tests estimate convergence rates for single ODEs, for which several order conditions hold trivially.",
  [S + "butcher_tableaux.py", DISC],
  [("tableau coefficients and orders", S + "butcher_tableaux.py")],
  ["result of a step"]),
P("C19", "Bundled ODEs and utility components are consistent",
  "For the bundled components (Kaps' problem, Prothero-Robinson problem, linear ODE) the stage update k satisfies the ODE's equation k = f(t, y + h*(acc + a*k)) "
  "for all inputs, with the root that depends continuously on the step size; residuals vanish there. Their derivative routines are the exact derivatives, forward "
  "and transposed, for every subset of variables that takes part, add to what is there, and the linear solves invert them. Stage value and stage update "
  "components are each other's inverse. The analytical solutions satisfy the ODE and the initial condition "
  "(for Kaps' problem: for initial values on its slow manifold) for all initial times.",
  ["inputs"],
  "all states, stage inputs, parameters, times, step sizes > 0 and stage factors >= 0",
  "Tests check fixed points; errors in rarely used branches (implicit stages, components of a split problem) are missed.",
  [S + "odes/kaps.py", S + "odes/prothero_robinson_ode.py", S + "odes/simple_linear_ode.py", S + "utils/utility_components.py"],
  [("compute, linearize, solve_linear", S + "odes/kaps.py")],
  ["outputs and jacobian vector products"]),
P("C20", "Callbacks see every step once, in order, with that step's state",
  "During an integration and its forward and reverse derivative computation the registered "
  "callbacks are called in the order they are given, once before and once after every step, with "
  "the step numbers 1 to N (N to 1 in reverse mode), with the state before the step and after it "
  "(in reverse mode the state of that step); rejected attempts are not steps. "
  "Callbacks registered for one mode are not called in another, and do not influence results. "
  "Without given callbacks the beginning, end and duration of each step are logged.",
  ["inputs", "schedules", "configurations"],
  "all numbers of steps, callback lists, checkpointers, right hand sides within the bounds",
  "Tests count calls for single configurations.",
  [S + "callback.py", RK],
  [("callback handling", RK), ("Callback interface", S + "callback.py")],
  ["calls received by callbacks"]),
P("C21", "The recorder file holds exactly the integrated trajectory",
  "The file written during an integration contains, for the selected steps and for each quantity "
  "and the time, exactly the values the integration had at that step, in the shape of the "
  "quantity, under the step's number, and with embedded schemes under error control its error measure; "
  "for distributed quantities each process writes exactly "
  "its own part. Derivative computations leave the file alone. Read back, each step has its own values and its difference to the given solution, "
  "and the last error is that of the last recorded step.",
  ["inputs", "configurations", "schedules"],
  "all numbers of steps, write frequencies, quantity layouts, values within the bounds",
  "Tests check single configurations, writing each step.",
  [S + "file_writer.py", RK],
  [("OpenMDAOHDF5Callback, read_hdf5_file, read_last_local_error", S + "file_writer.py")],
  ["content of the file"]),
]

NA = {}
LEVEL_NOTE = (
    "Bounded symbolic execution of the real Python code with z3: holds for every value of "
    "the symbolic inputs within the bounds listed in evidence/%s.json; real arithmetic "
    "instead of IEEE doubles; stubs and assumptions listed there; counterexamples are replayed on "
    "the unpatched code before they are reported."
)


def main():
    props, checks = [], []
    for p in PROPS:
        has = os.path.exists(os.path.join(ROOT, "checks", p["id"].lower() + ".py"))
        if not has and p["id"] not in NA:
            continue
        props.append(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["q"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"],
                         mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                         observe_at=p["observe"], hook_needed=None),
        ))
        if p["id"] not in NA:
            checks.append(dict(
                property=p["id"],
                quick_cmd=f"./check.sh {p['id']} --tier quick",
                thorough_cmd=f"./check.sh {p['id']} --tier thorough",
                evidence_file=f"evidence/{p['id']}.json",
                technique="bounded symbolic execution of the real Python code, z3",
                level="model_checking", level_note=(LEVEL_NOTE % p["id"]) + p["note"],
            ))
        assert len(p["title"]) <= 80, p["title"]
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in props:
            f.write(json.dumps(p) + "\n")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(dict(version=1, setup_cmd="true", checks=checks,
                       not_applicable=[dict(property=k, reason=v) for k, v in NA.items()]), f, indent=1)
        f.write("\n")


main()
