"""What each check consists of (read by run_check.py; does not import the code)."""

A_EXACT = ("stage models are quadratic maps over Z_46337 with dyadic data, on which the "
           "code's floating point operations are exact; control flow of the code does "
           "not depend on the magnitude of such values")
A_TRUST = "TLC, OpenMDAO 3.33, numpy and the recording harness are trusted"

CHECKS = {}


def chk(pid, **kw):
    kw.setdefault("level", "model_checking")
    kw.setdefault("assumptions", [A_EXACT, A_TRUST])
    CHECKS[pid] = kw


MC_RK = {"quick": [{"module": "MC_RK"}],
         "thorough": [{"module": "MC_RK", "cfg": "MC_RK_deep.cfg", "workers": 6}]}

chk("C01", trace_spec="TraceRK", design=MC_RK,
    rule="random stage model, tableau, layout, inputs per trace; non-trivial: all "
         "weights non-zero mod P, every trace has at least one step")
chk("C02", trace_spec="TraceRK", design=MC_RK, rule="as C01, with two directions each")
chk("C03", trace_spec="TraceRK", design=MC_RK, rule="as C01, with two seeds each")

_switch = [{"module": "Integrator", "cfg": f"Integrator_no{b}.cfg", "expect": e}
           for b, e in [("CompareX", "LinearizedRight"), ("CompareU", "LinearizedRight"),
                        ("CompareT", "LinearizedRight"),
                        ("InvalidateAtRun", "CacheComplete"),
                        ("InvalidateAtRev", "CacheComplete"),
                        ("ClearStore", "CacheComplete"),
                        ("FwdPrivate", "CacheComplete")]]
for _s in _switch:
    _s["workers"] = 1  # breadth-first order, so that the expectation is deterministic
INTEGRATOR = {
    "quick": [{"module": "Integrator", "cfg": "Integrator_all.cfg"},
              {"module": "Integrator", "cfg": "Integrator_slots.cfg"}],
    "thorough": [{"module": "Integrator", "cfg": "Integrator_all_deep.cfg"},
                 {"module": "Integrator", "cfg": "Integrator_slots_deep.cfg"}] + _switch}
A_DET = ("results are compared bitwise with those of freshly set up integrators in the "
         "same process")
chk("C04", trace_spec="TraceLife", design=INTEGRATOR, pre="life",
    assumptions=[A_DET, A_TRUST],
    rule="TLC enumerates all histories of length 3 with every crash point, all of "
         "length 4 (thorough: 5), and random ones of length 12; each is replayed on a "
         "checkpointing scheme; non-trivial: history ends in an observed operation.")
SLOTS = {"quick": [{"module": "Integrator", "cfg": "Integrator_slots.cfg"}],
         "thorough": [{"module": "Integrator", "cfg": "Integrator_slots_deep.cfg"}]}
chk("C05", trace_spec="TraceCkpt", design=SLOTS, assumptions=[A_DET, A_TRUST],
    rule="every number of steps 1..10 (thorough 22) with every number of checkpoints "
         "1..N+1 and the default, three pyrevolve types, fixed, embedded and adaptive "
         "steps, plus selected larger numbers of steps; nine operations each")
ISO = {"quick": [{"module": "Isolate"}],
       "thorough": [{"module": "Isolate", "cfg": "Isolate_deep.cfg"},
                    {"module": "Isolate", "cfg": "Isolate_noPrivateOptions.cfg",
                     "workers": 1, "expect": "Isolated"},
                    {"module": "Isolate", "cfg": "Isolate_noReset.cfg",
                     "workers": 1, "expect": "Isolated"}]}
chk("C06", trace_spec="TraceIso", design=ISO, pre="iso", assumptions=[A_DET, A_TRUST],
    rule="TLC enumerates all interleavings of three operations of two integrators "
         "after their set up, and random ones of length 14; each is replayed with a "
         "kind of shared objects; non-trivial: both integrators are used")
CTL = {"quick": [{"module": "MC_Control"}],
       "thorough": [{"module": "MC_Control"},
                    {"module": "MC_Control", "cfg": "MC_Control_deep.cfg"}]}
A_LOG = ("tolerances, errors, step sizes and bounds are powers of two, so that the law "
         "is linear in their logarithms; compared up to 2/(16*360*p*(p+1)) in log2")
chk("C08", trace_spec="TraceControl", design=CTL, assumptions=[A_LOG, A_TRUST],
    rule="every named controller, order 1 to 5, random parameters, bounds, safety "
         "factors, histories (also missing ones) and remaining times, alone and as "
         "fallback; non-trivial: errors above and below the tolerance")
chk("C09", trace_spec="TraceControl", design=CTL, assumptions=[A_LOG, A_TRUST],
    rule="random histories of trials (4 to 20) on chains of one to four controllers")
ADAPT = {"quick": [{"module": "Adaptive"}, {"module": "Adaptive", "cfg": "Adaptive_n.cfg"}],
         "thorough": [{"module": "Adaptive", "cfg": "Adaptive_deep.cfg"},
                      {"module": "Adaptive", "cfg": "Adaptive_n.cfg"},
                      {"module": "Adaptive", "cfg": "Adaptive_noCopy.cfg", "workers": 1,
                       "expect": "OnlyAccepted"},
                      {"module": "Adaptive", "cfg": "Adaptive_noLimitA.cfg", "workers": 1,
                       "expect": "NeverBeyond"},
                      {"module": "Adaptive", "cfg": "Adaptive_noLimitF.cfg", "workers": 1,
                       "expect": "NeverBeyond"}]}
chk("C07", trace_spec="TraceAdapt", design=ADAPT,
    rule="random embedded tableau, stage model and inputs; error measures, verdicts "
         "and suggestions are functions of the trial (scripted), or come from chains of "
         "the package's controllers with integer exponents; non-trivial: rejections "
         "occur in most traces")
chk("C10", trace_spec="TraceTerm", design=ADAPT,
    assumptions=["times are compared by order, and with 1e-9 for hitting the end time",
                 A_TRUST],
    rule="every number of steps 0..13 and 25, end times with fixed steps (also at or "
         "before the start) and with adaptive steps under random chains of the package's "
         "controllers on an erratic stage model; criteria of the user that look at the "
         "accepted state")
chk("C11", trace_spec="TraceCb", design=SLOTS,
    rule="random stage model, tableau and number of steps 1..7, one to three callbacks "
         "per operation, five operations, storing and recomputing schemes; adaptive "
         "integrations as in C07; the shipped reporting callbacks; non-trivial: at least "
         "one operation")
FILE = {"quick": [{"module": "ResultFile"}],
        "thorough": [{"module": "ResultFile", "cfg": "ResultFile_deep.cfg"},
                     {"module": "ResultFile", "cfg": "ResultFile_noTruncate.cfg",
                      "workers": 1, "expect": "Exact"},
                     {"module": "ResultFile", "cfg": "ResultFile_first.cfg",
                      "workers": 1, "expect": "Exact"}]}
chk("C12", trace_spec="TraceFile", design=FILE,
    rule="random stage model, tableau, layout and write period; one or two integrators "
         "on the same file (also one that exists already), up to three runs with reverse "
         "and forward products in between, fixed and adaptive steps; file dumped after "
         "every operation, read back at the end")
TAGM = {"quick": [{"module": "TagCases", "cfg": "TagModel.cfg"}],
        "thorough": [{"module": "TagCases", "cfg": "TagModel3.cfg"}]}
chk("C13", trace_spec="TraceTags", design=TAGM, pre="tags", assumptions=[A_TRUST],
    rule="TLC enumerates all taggings that differ from six valid ones in one place "
         "(each with three random model hierarchies), and 1800 (thorough: all, and "
         "15000 with three changes) that differ in two; accepted ones are probed with "
         "pairwise different values")
STATE = {"quick": [{"module": "StateOps"}],
         "thorough": [{"module": "StateOps", "cfg": "StateOps_deep.cfg"},
                      {"module": "StateOps", "cfg": "StateOps_noSetCopy.cfg",
                       "workers": 1, "expect": "Faithful"},
                      {"module": "StateOps", "cfg": "StateOps_noSaveCopy.cfg",
                       "workers": 1, "expect": "Faithful"}]}
chk("C14", trace_spec="TraceState", design=STATE, pre="states", assumptions=[A_TRUST],
    rule="TLC enumerates all histories of three operations on two states, and random "
         "ones of twelve; each is replayed on integration or bare discretization states "
         "of random kind and sizes whose entries are pairwise different")
chk("C15", trace_spec="TraceTab", assumptions=[
    "coefficients enter the order conditions with 60 fractional bits, tolerance 2^-31",
    A_TRUST],
    rule="every shipped tableau with all rooted trees up to its order; shapes up to 3x3 "
         "(thorough: 4x4); random matrices of every class, with entries down to the "
         "smallest denormal number on and above the diagonal; integrators built from "
         "such tableaux")
chk("C16", trace_spec="TraceNorm", assumptions=[
    "norms of integers, compared to 36 bits; orders are rationals for which the power "
    "of the norm is an integer", A_TRUST],
    rule="orders 1, 2, 3, 4, 3/2, 1/2, 5/2, 0, inf, -inf; random division into "
         "quantities of random shape, exclusions and storage order; entries that are "
         "not numbers")
LIN = {"quick": [{"module": "Linear"}],
       "thorough": [{"module": "Linear", "cfg": "Linear_deep.cfg"},
                    {"module": "Linear", "cfg": "Linear_overwrite.cfg",
                     "workers": 1, "expect": "Composed"},
                    {"module": "Linear", "cfg": "Linear_unscoped.cfg",
                     "workers": 1, "expect": "Composed"}]}
chk("C17", trace_spec="TraceOuter", design=LIN, assumptions=[
    A_EXACT, "models solved iteratively have derivatives on the grid 2^-24, results are "
    "accepted within 2^-28 of it", A_TRUST],
    rule="random models of one to three integrators and up to ten algebraic components, "
         "in nested groups, acyclic, cyclic between components or with a feedback loop; "
         "fixed and adaptive steps; "
         "total derivatives with respect to every entry, products of the model, and "
         "products of one integrator with random contents and scope of the vectors")
chk("C18", trace_spec="TraceScheme", design=MC_RK,
    rule="random histories of the scheme's start, step and finalization functions, "
         "their tangents and adjoints, on one or two ODEs sharing a scheme; ODEs with "
         "stage states, independent outputs, three kinds of linearization data and "
         "result buffers that are used again; kept states are deep copies, set or "
         "restored from dictionaries")
chk("C20", trace_spec="TraceHelper", assumptions=[A_EXACT, A_TRUST],
    rule="random stage models of value and update helpers in nested groups with "
         "explicit and implicit unsteady probes, attached repeatedly through the ODE or "
         "an integrator; evaluations, tangents and adjoints with random h and a; products "
         "of single helpers with random contents and scope of the vectors")
LOCK = {"quick": [{"module": "Lockstep"}],
        "thorough": [{"module": "Lockstep", "cfg": "Lockstep_deep.cfg"},
                     {"module": "Lockstep", "cfg": "Lockstep_local.cfg", "workers": 1,
                      "expect": "Agree"}]}
chk("C19", trace_spec="TraceDist", design=LOCK, procs=3, assumptions=[
    A_EXACT, "products are asked of the component, with the full seed of replicated "
    "variables on every process", A_TRUST],
    rule="mpirun with 2, 3 and 4 processes: random stage models with distributed "
         "(also empty parts) and replicated variables or with parallel groups; runs, "
         "products, result files, adaptive steps decided by the package's measures, "
         "norms of every order; also two groups of processes that integrate apart, and "
         "larger models with a parallel group of integrators")
chk("C21", trace_spec="TraceOde", assumptions=[
    "60 fractional bits; explicit formulas compared to 2^-31, results of the nonlinear "
    "solver of Kaps' problem to 2^-18; Kaps' solution only on its slow manifold and at "
    "the initial time (it is an approximation elsewhere)", A_TRUST],
    rule="random parameters, times, step sizes, diagonal entries, values and directions; "
         "through the ODE in several places of a model with interleaved linearization "
         "points, and products of single components with random contents and scope")
chk("C22", trace_spec="TraceStudy", assumptions=[
    "60 fractional bits; states are compared to 2^-24, those found by the nonlinear "
    "solver of Kaps' problem to 2^-18", A_TRUST],
    rule="random histories of naming, executing, removing and inspecting on the shipped "
         "problems made in four ways, with shipped and small tableaux, fixed and adaptive "
         "steps")
NOT_APPLICABLE = {}
