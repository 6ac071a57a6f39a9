"""Writes /verif/properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os

R = "src/rkopenmdao/"
I = R + "runge_kutta_integrator.py"
D = R + "time_discretization/stage_ordered_runge_kutta_discretization.py"
ST = R + "time_discretization/runge_kutta_discretization_state.py"
TS = R + "time_integration_state.py"
O = R + "discretized_ode/openmdao_ode.py"
M = R + "metadata_extractor.py"
EC = R + "error_controller.py"
ECS = R + "error_controllers.py"
EM = R + "error_measurer.py"
TC = R + "termination_criterion.py"
CB = R + "callback.py"
FW = R + "file_writer.py"
BT = R + "butcher_tableau.py"
BTS = R + "butcher_tableaux.py"
CI = R + "checkpoint_interface/"
UC = R + "utils/utility_components.py"
CO = R + "components.py"
KA = R + "odes/kaps.py"
PR_ = R + "odes/prothero_robinson_ode.py"
SL = R + "odes/simple_linear_ode.py"
PB = R + "utils/problems.py"

props = []


def p(id, title, statement, over, text, why, files, mech, state=(), obs=(), hook=None):
    props.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "observe_at": list(obs), "hook_needed": hook},
    })


p("C01", "Time integration carries out exactly the Runge-Kutta recursion",
  "Running the integrator with a fixed step size h performs, for every explicit or diagonally implicit tableau (A,b,c) and every stage model, exactly the recursion: stage i of each step hands the stage model the step's start state, the sum over j<i of A[i,j] times the earlier stage updates, the stage time t+c[i]*h, the unchanged time-independent inputs, h and A[i,i], and the new state is the start state plus h times the b-weighted sum of the stage updates. After the prescribed number of steps the final state of every quantity and the final time are delivered, in their declared shape, at that quantity's own output.",
  ["inputs", "configurations", "programs"],
  "All tableaux without entries above the diagonal (any number of stages, zero and non-zero diagonal entries, stage times independent of row sums), all stage models (several quantities of any shape, with or without time variable, parameters, quantities without own stage inputs), all initial values, initial times, step sizes and numbers of steps.",
  "The tests compare a few analytic ODEs against tolerances of 1e-4 or so for a dozen tableaux; wrong weights that only matter for particular tableau shapes, couplings or arrays stay inside the tolerance or are never exercised.",
  [I, D, O, M],
  [("stage loop, accumulation of stages and of the step", D), ("transfer between flat arrays and the variables of the stage problem", O), ("collection of the quantities from inputs and into outputs", I)],
  [("x,t", "state vector and time at the step boundary", D), ("K", "stage updates of the current step", D)],
  ["outputs of the integrator", "inputs seen by the stage model at each evaluation"])

p("C02", "Forward products are the exact linearization of the integration",
  "A forward-mode product of the integrator equals the exact derivative of the map (initial values, time-independent inputs, initial time) -> (final values, final time), with the accepted step sizes held fixed, applied to the given direction. This includes every path: through all stages and steps, the time argument of the stage model, the inputs that do not vary with time, and final time depending on initial time with factor one.",
  ["inputs", "configurations", "programs"],
  "All tableaux, stage models, evaluation points and directions, including directions that perturb only some of the inputs, and fixed as well as adaptively chosen step sizes.",
  "Tests compare with finite differences or complex step at a handful of points and mostly linear models with tolerances that hide missing second order couplings; time derivatives and mixed configurations are sparsely covered.",
  [I, D, O],
  [("stage derivative loop", D), ("linearization point handling and linear solve of the stage problem", O), ("forward step loop running primal and tangent in lockstep", I)],
  [("dx,dt,dK", "tangent of state, time and stage updates", D)],
  ["forward-mode products of the integrator component"])

p("C03", "Reverse products are the exact transpose of the forward products",
  "A reverse-mode product of the integrator equals the transpose of the exact derivative described by the forward product: for all output seeds w and all input directions d, the inner product of w with the forward product of d equals the inner product of the reverse product of w with d. Contributions to initial values, to time-independent inputs (summed over all stages and steps) and to the initial time are all present.",
  ["inputs", "configurations", "programs"],
  "All tableaux, stage models, evaluation points, directions and seeds, with every checkpointing scheme that supports the reverse mode and with fixed or adaptive step sizes.",
  "Tests use tolerances around 1e-4 on few models; seeds on single outputs (for example only the final time) and tableaux with explicit stages behind implicit ones are not sampled.",
  [I, D, O],
  [("adjoint stage loop in reversed order", D), ("adjoint of the stage problem", O), ("reverse step loop over checkpoints", I)],
  [("bx,bt,bu,bK", "cotangents of state, time, parameters and stage updates", D)],
  ["reverse-mode products of the integrator component"])

p("C04", "Derivatives never depend on what was called before",
  "Whatever sequence of runs, forward products, reverse products and input changes preceded it, and even if some of these were aborted by an exception raised in the stage model, every run and every product returns exactly what a freshly set up integrator would return for the current inputs and seed, provided that the stage model itself computes the same results from the same inputs (it does not depend on the starting values of an iterative solver). In particular stored intermediate results are reused only if they are complete and belong to exactly the current inputs (initial values, time-independent inputs and initial time).",
  ["histories", "fault_sequences", "crash_points"],
  "All finite histories of the operations change-inputs, run, forward product, reverse product, with an exception injected at any evaluation or linearization of the stage model, for every checkpointing scheme.",
  "The tests call each operation once or twice in the same canonical order (run, then derivatives) and never abort one in the middle.",
  [I, CI + "all_checkpointer.py", CI + "pyrevolve_checkpointer.py"],
  [("comparison of cached inputs with the current ones, invalidated at start of a run and by reverse iteration", I), ("reset of checkpoint storage at start of a run", CI + "all_checkpointer.py")],
  [("cache", "inputs for which the checkpoints are complete, or none", I), ("store", "contents of the checkpoint storage", CI)],
  ["return values of run and products after arbitrary histories"])

p("C05", "The checkpointing scheme changes memory and cost, never results",
  "For every number of steps N>=1 and every checkpointing scheme usable in reverse mode with every admissible number of checkpoints, the reverse sweep linearizes exactly the steps N, N-1, ..., 1 in this order, each once, around exactly the state, stage values and step size that the run had there, and thus all outputs and products agree bitwise with storing everything. The scheme without checkpoints delivers identical runs and forward products and refuses reverse products with an error instead of returning wrong values.",
  ["configurations", "schedules", "histories"],
  "All N>=1 up to the bound, all schemes (store-all, in-memory revolve, single-level, disk revolve, none), all admissible checkpoint counts, hence all recomputation schedules.",
  "Tests run a few combinations of N and scheme and compare only gradients against loose tolerances, never the sequence of linearized steps.",
  [CI + "all_checkpointer.py", CI + "pyrevolve_checkpointer.py", CI + "runge_kutta_integrator_pyrevolve_classes.py", CI + "no_checkpointer.py", TS],
  [("save and restore of the full integration state", CI + "runge_kutta_integrator_pyrevolve_classes.py"), ("first step outside of the revolver, remaining by schedule", CI + "pyrevolve_checkpointer.py"), ("stack of deep copies", CI + "all_checkpointer.py")],
  [("slots", "which step each checkpoint slot holds", CI), ("cur", "step of the live integration state", CI)],
  ["reverse-mode callbacks and products", "run-mode callbacks during the reverse sweep"])

p("C06", "Runs are repeatable and integrators isolated from each other and from users",
  "Repeating a run or product with the same inputs gives bitwise the same result (as far as the stage model does), with adaptive step sizes and fallback controllers as well. Integrators built from the same tableau, configuration, option, controller or measurer objects do not influence each other in whatever interleaving they are used, and neither set up nor use modifies these objects, nor the input values and seeds passed in.",
  ["histories", "configurations", "schedules"],
  "All interleavings of set up, run, forward and reverse operations of two or more integrators sharing option objects, all checkpointing schemes, repeated set ups of one integrator.",
  "Tests build a fresh problem per case and look at the first result only.",
  [I, EC, CI + "pyrevolve_checkpointer.py"],
  [("reset of integration state and error control at the start of each operation", I), ("private copy of revolver options", CI + "pyrevolve_checkpointer.py"), ("controllers constructed per integrator", I)],
  [("controller mode", "which controller is active and how many rejections it saw", EC)],
  ["results of interleaved operations", "option objects before and after"])

p("C07", "Adaptive integration keeps accepted steps only",
  "With adaptive step sizes, a trial step is accepted exactly if its error measure does not exceed the tolerance or the step is already at the smallest permitted size; a rejected trial leaves no trace, that is, it is repeated from the identical start state and time with the newly suggested step size, and neither the state, the time, the step count, the histories nor any later derivative sees it. After acceptance the next step starts with the suggested size, and the controller is given the error measures and sizes of the last two accepted steps, newest first (tolerance and none before there were any).",
  ["inputs", "histories", "configurations"],
  "All sequences of error measures and hence of acceptances and rejections, all embedded tableaux, tolerances, bounds and controllers.",
  "Adaptive tests only compare the final result of a few smooth problems with an analytic solution; a rejected trial leaking into state or histories changes results by less than their tolerance.",
  [I, EC, D, TS],
  [("trial on a copy, copied back on acceptance only", I), ("acceptance test", EC), ("shift of the two-element histories", I)],
  [("sugg", "step size of the next trial", TS), ("hist,err", "sizes and error measures of the last two accepted steps", TS)],
  ["arguments and results of the error controller", "stage evaluations of each trial", "callbacks"])

p("C08", "Suggested step sizes follow the documented law within its bounds",
  "Given the error measure, the step size and the two-step history, every controller suggests safety factor times step size times the documented product of powers of error and step size ratios (ratios with a missing past step count as one; a zero error keeps the size), clipped to the configured lower and upper bound. Finally it is limited so that a step following an accepted one does not go beyond the end time, and a retry of a rejected one does not go beyond it either.",
  ["inputs", "configurations"],
  "All controllers offered, orders, configurations (tolerance, bounds, safety factor), error measures, step sizes, histories and remaining times, with and without fallback wrapping.",
  "Tests evaluate the formula at a few points for the bare class; coefficients of the named controllers, clipping order, wrapping and the limits near the end time are hardly sampled.",
  [EC, ECS],
  [("estimate of next step size", EC), ("clipping and end time limit", EC), ("coefficients of the named controllers", ECS)],
  [], ["step size suggestion and acceptance returned by a controller"])

p("C09", "Fallback controllers take over exactly when the outer one fails",
  "With a chain of controllers, the first one decides while it works; it counts as failing if it suggests a step that is not smaller after a rejection, or after more than the configured number of consecutive rejections, and then the fallback controller's verdict on the same trial is used, and the fallback stays in charge until a step is accepted, whereupon the first one is in charge again with a fresh count. If the last controller of the chain suggests a larger step after a rejection, an error is raised.",
  ["histories", "configurations"],
  "All histories of trials (error measures, step sizes) over all chains of one to three controllers and all limits on the number of rejections.",
  "The state machine inside the controllers has memory across trials; tests drive single calls.",
  [EC, ECS, I],
  [("mode flag and rejection counter", EC), ("chain construction", I)],
  [("mode", "outer or fallback in charge", EC), ("cnt", "consecutive rejections of the outer controller", EC)],
  ["step size suggestion, acceptance and errors along a history of controller calls"])

p("C10", "Integration ends at its termination criterion, not before or after",
  "With a prescribed number of steps exactly that many accepted steps are made (none if the number is zero with plain or no checkpointing), in runs and in products alike. With a prescribed end time, steps are made exactly as long as the current time is below it; with adaptive steps that start inside the interval the last step (also if it is the first one) is shortened to hit the end time, so the integration neither stops early nor goes beyond, and it always finishes or raises an error, never repeating a trial with an unchanged step size forever. A criterion of the user's own is asked once before every step, with the number of accepted steps so far and their result, and the integration ends as soon as it says so.",
  ["inputs", "configurations", "histories"],
  "All step counts, end times, step sizes (dividing the interval or not), initial times including ones at or after the end time, and all accept/reject histories.",
  "Tests use end times that are multiples of the step size and few adaptive cases.",
  [TC, I, EC, CI + "all_checkpointer.py", CI + "no_checkpointer.py"],
  [("criterion evaluated before each step", CI + "all_checkpointer.py"), ("remaining time passed to the controller", I), ("limit of the suggestion by the remaining time", EC)],
  [], ["number of steps seen by callbacks, final time, stage evaluations"])

p("C11", "Callbacks see every step once, in order, with the true data",
  "During a run each registered callback is called immediately before and after every accepted step, in registration order, with step numbers 1..N ascending; forward products do the same with their own callbacks, and reverse products call theirs with N..1 descending. The state shown before a run or forward step is the result of the previous step (initially the initial values), and after it, and in reverse steps both times, the data of exactly that step: start and final time and state, stage times and updates, embedded error data, step size and histories; steps recomputed for a reverse product are announced to the run callbacks under their original number with identical data. The callbacks shipped for logging and time measurement report exactly these steps, under the name given, and the time that passed between the two calls.",
  ["histories", "configurations", "schedules"],
  "All modes, numbers of callbacks, checkpointing schemes, step counts, fixed and adaptive steps with any pattern of rejections.",
  "The one callback test counts calls; what the callbacks are shown, numbering under recomputation, and adaptive rejections are not looked at.",
  [I, CB, CI + "runge_kutta_integrator_pyrevolve_classes.py", TS],
  [("calls around each step", I), ("step numbering of the operators", CI + "runge_kutta_integrator_pyrevolve_classes.py")],
  [], ["arguments of user callbacks"])

p("C12", "Result files contain exactly the trajectory and are read back unchanged",
  "After a run with the HDF5 callback, the file contains a group for the initial values and one for every step whose number is a multiple of the write period, and no others; each holds the time and every quantity in its global shape with exactly the values of that step, and in adaptive runs the step's error measure. This stays true after repeated runs on the same file and after reverse products that recompute steps, and the reading functions return exactly the stored times, values and last error measure, and errors relative to the supplied solution evaluated with the stored initial values.",
  ["configurations", "histories", "inputs"],
  "All write periods, step counts, shapes and numbers of quantities, fixed and adaptive schemes, checkpointing schemes, histories of runs and products on one file.",
  "The write tests cover one or two quantities with fixed shapes and a single run.",
  [FW],
  [("creation and filling of datasets around each step", FW), ("index computation for writing", FW), ("readers", FW)],
  [], ["contents of the written file", "return values of the readers"])

p("C13", "Tagged variables are translated correctly or rejected at set up",
  "From the tags of the stage model's variables, set up derives for every integrated quantity and time-independent input a translation that connects it to precisely the variables tagged for it, and storage ranges that are disjoint, gap-free and as large as the variable; quantities may come in any order, shape and place in the model hierarchy, connected or not. Inputs of the integrator that are not set have the values these variables have in the stage model (zero where there is none). Ambiguous or incomplete tagging (several variables for the same role, only one of the two stage inputs, no or several roles, a variable tagged for two quantities, a non-scalar or second time variable) is rejected at set up with a set up error, never silently accepted.",
  ["configurations", "programs"],
  "All assignments of tags to a small set of variables, all shapes, orders and hierarchies.",
  "The extractor tests check a few hand-picked valid layouts and half of the error branches.",
  [M, O, I],
  [("search by tag and consistency checks", M), ("storage ranges", M)],
  [("ranges", "start and end index per quantity", M)],
  ["metadata of the integrator's ODE", "set up errors", "correct routing of values in a run"])

p("C14", "Saved integration states restore completely and independently",
  "Copying one integration state into another of the same layout transfers every field, changes the arrays in place and leaves both independent afterwards; converting a state to a dictionary and back, or copying all its data out and writing them back, yields an equal state of the same kind, including step size, independent outputs, linearization points, embedded data and histories. No later change of one state is visible in another one that was set from it.",
  ["inputs", "histories"],
  "All state layouts (sizes, stages, embedded or not), all contents, all sequences of set, copy, to-dict, from-dict and modification.",
  "No test exercises these objects directly; a missing field only shows with particular checkpointing schemes.",
  [ST, TS],
  [("in-place copy", ST), ("dictionary conversion", ST), ("dictionary conversion of the integration state", TS)],
  [("fields", "all arrays of a state", ST)],
  ["fields of states after each operation"])

p("C15", "Tableaux are classified and checked correctly and reach their order",
  "Each tableau is exactly one of explicit, diagonally implicit and fully implicit, according to its entries on and above the diagonal; ill-shaped ones are rejected, main weights that do not sum to one and stage times that are not row sums are warned about, and main and embedded part are separated correctly with their own weights and orders. Every tableau shipped with the package satisfies all order conditions for the orders it declares and has the number of stages, the structure and the weak stage order that its name states, and tableaux that the integrator cannot process are refused instead of integrated wrongly.",
  ["inputs", "configurations"],
  "All tableaux over small entry sets up to four stages, all shapes of wrong sizes, and all shipped tableaux with all order conditions up to order five.",
  "Order tests cover only embedded tableaux and omit one fifth order condition; classification and warnings are not tested over their case space.",
  [BT, BTS, I],
  [("classification", BT), ("consistency checks on construction", BT), ("coefficients", BTS)],
  [], ["classification results, warnings, errors", "coefficients of shipped tableaux"])

p("C16", "Error norms and measures equal their definition over all quantities",
  "The norm of a state is the p-norm of the requested order over the concatenation of all not excluded quantities, for order one, two, other positive orders, zero, and plus and minus infinity, independent of how the state is divided into quantities; a state with an entry that is not a number has no finite norm (except of order zero). The simple measure is the norm of the error estimate, the relative one divides it by the sum of the norm of the state and the ratio of its absolute to its relative tolerance.",
  ["inputs", "configurations"],
  "All divisions of a state into quantities, all exclusion sets, all supported orders, all values including zeros.",
  "The norm is tested for one problem per order.",
  [O, EM],
  [("partial norms and their combination", O), ("measures", EM)],
  [], ["norm and measure values"])

p("C17", "The integrator is a well-behaved citizen of larger OpenMDAO models",
  "Used as one component of a larger model, with other components before and after it, several integrators in sequence, and block Gauss-Seidel, block Jacobi, direct or Krylov linear solvers, total derivatives in both modes equal those of the composed mathematical map. Products add to what is already in the given vectors instead of overwriting it and neither read nor write derivative entries of variables that are not part of the request.",
  ["programs", "configurations", "histories"],
  "All chains of integrators and algebraic components, all linear solvers, all subsets of variables in scope, all prior contents of the vectors.",
  "Tests compute derivatives of a single integrator with a direct or default solver and zeroed vectors.",
  [I],
  [("accumulation into linear vectors", I), ("scope test of variables", I)],
  [], ["total derivatives of composed models", "derivative vectors passed to the component"])

p("C18", "The discretization scheme works for any ODE implementation",
  "Used directly with any implementation of the ODE interface, also with independent outputs, stage states and own linearization data, the Runge-Kutta scheme's start, step and finalization functions perform the same recursion, tangent and adjoint as above: start takes over initial time, values and inputs, a step uses the linearization data the ODE returned for precisely this stage, the tangent is exact and the adjoint its transpose, and embedded schemes deliver error estimate equal to final minus embedded state.",
  ["inputs", "programs", "configurations"],
  "All ODE implementations (affine and quadratic ones are sampled), tableaux, states and perturbations, repeated steps on the same state objects.",
  "Tests use three linear ODEs and the tableaux of the library.",
  [D, ST, R + "discretized_ode/discretized_ode.py", R + "time_discretization/time_discretization_scheme_interface.py"],
  [("scheme functions", D)],
  [], ["states returned by the scheme, calls received by the ODE"])

p("C19", "Parallel runs give the sequential results on every process",
  "When the stage model is spread over several processes, by distributed variables or by a parallel group, runs, products of the integrator component, norms, step size decisions and result files equal those of the same model on one process: every process holds its entries of the sequential result (of replicated variables all), makes the same steps and accept/reject decisions, and its part lands at its place in the arrays of the result file. Quantities held by several processes count once in norms. This holds on the communicator of the problems, whether or not it spans all processes.",
  ["configurations", "schedules", "inputs"],
  "All distributions of quantities and time-independent inputs over two to four processes, including empty parts and quantities absent on some processes, all modes and checkpointing schemes, fixed and adaptive steps.",
  "The reliably run tests are sequential; parallel tests need a separate launcher and cover few sizes.",
  [O, M, FW, I],
  [("global reduction of norms", O), ("global ranges of local parts", M), ("collective writing", FW)],
  [], ["results on each rank compared with the specification"])

p("C20", "Stage helper components compute the documented values and derivatives",
  "The stage value helper returns old value plus step size times (accumulated stages plus diagonal entry times slope), and the stage update helper its inverse, for any shape and number of quantities, always with the step size and diagonal entry of the stage currently computed; their forward and reverse products are exact, add to the given vectors and touch requested variables only. Every component derived from the unsteady base classes anywhere in the model receives the current step size and diagonal entry, also after repeated set ups.",
  ["inputs", "programs", "configurations"],
  "All values, shapes, lists of quantities, subsets of variables in scope, positions in the model.",
  "Helper components are only used within few integration tests in one configuration.",
  [UC, CO, O],
  [("formulas", UC), ("shared exchange object", CO), ("distribution of the exchange object", O)],
  [], ["outputs and products of the helper components"])

p("C21", "The shipped ODEs solve their documented equations with exact derivatives",
  "The linear ODE, Prothero-Robinson's and Kaps' problem compute, for every step size, diagonal entry, stiffness, time and values, the stage update of the equations in their documentation (for implicit stages the solution that exists for small step sizes). Tangents are the exact derivatives, also with respect to time, adjoints their transposes, at every linearization point; products of their components add to the given vectors and touch requested variables only, and their linear solves invert the linearized equations in both modes. The solution functions satisfy the given initial values at the given initial time and solve the equations (Kaps' problem: for initial values with y1 = y2^2), and the documented initial values are returned.",
  ["inputs", "configurations", "histories"],
  "All parameters, times, step sizes, diagonal entries (also zero), values, directions, linearization points visited in any order, subsets of variables in scope.",
  "No test uses the shipped ODEs; the tests carry their own copies of similar ones.",
  [KA, PR_, SL],
  [("stage formulas and products", KA), ("stage formula and solution", PR_), ("stage formula, products, solution", SL)],
  [], ["stage updates, products and values of the solution functions"])

p("C22", "Study problems run as configured and keep their result files apart",
  "A problem of the convergence study, however made (with default or given stiffness or from the command line), integrates its ODE from the documented initial values with the given tableau, controller, measure and steps, and writes every step with time, state and error measure to the given file, creating missing directories; the deviations read back are those from the exact solution. Files of different kinds, scheme names (up to case, spaces and commas) and step sizes are different, unknown kinds are refused, existence is reported truthfully, and the tolerance computed for a scheme is the mean of the last errors of all its step sizes, or the documented default if one is missing.",
  ["histories", "configurations", "inputs"],
  "All sequences of naming, running, removing and querying, all schemes, step sizes, stiffness values, fixed and adaptive steps.",
  "No test touches the study problems.",
  [PB, FW],
  [("naming, execution, tolerance", PB), ("reading results", FW)],
  [], ["result files, returned names and tolerances"])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as f:
    for q in props:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
print(len(props))
