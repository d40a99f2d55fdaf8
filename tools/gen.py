"""Writes properties.jsonl and MANIFEST.json from one table (run by hand, output committed)."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AS = "rkstiff/solveras.py"
CS = "rkstiff/solvercs.py"
ADAPT = ["rkstiff/if34.py", "rkstiff/etd34.py", "rkstiff/etd35.py", "rkstiff/if45dp.py"]
CONST = ["rkstiff/if4.py", "rkstiff/etd4.py", "rkstiff/etd5.py"]
SCHEMES = CONST + ADAPT
P = []


def p(id, title, statement, over, qtext, why, files, mech, level, technique, note, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, level=level, technique=technique, note=note, observe=observe, state=state))


MC = "model_checking"
EX = "exploration"
FE = "fault_enumeration"

p("C01", "Adaptive steps are accepted exactly when the error estimate meets the tolerance",
  "Every result an adaptive solver's step returns is a candidate whose step factor safety_f*(epsilon*|u|/|err|)^(1/q) is at least 1 under the configuration in force, the norms being taken over the modes of the candidate whose relative magnitude exceeds adapt_cutoff and q being 5 for IF45DP and 4 for the other solvers. A candidate that meets this is never rejected (an error estimate of exactly zero always meets it), and a candidate containing inf or NaN is never accepted.",
  ["inputs", "histories", "fault_sequences", "configurations"],
  "All sequences of candidates and error estimates a method can produce, for every configuration.",
  "Tests run a few smooth problems with default settings; acceptance depends on the sequence of error estimates, on which modes are masked and on non-finite values, which those runs do not produce.",
  [AS] + ADAPT, [("step factor with mode mask", AS), ("accept/reject loop", AS)],
  MC, "explicit-state model of the controller; every environment path replayed on the implementation",
  "All answer sequences up to the depth bound from a finite alphabet of candidates/errors and configurations; all four real solvers monitored on a problem grid. Values outside the alphabets are not covered; factors within 1e-9 of the threshold are not judged.",
  ["step", "evolve"])
p("C02", "Adaptive step sizes follow the documented controller law",
  "With decr_f >= 0.25, after a rejected attempt with finite step factor s the next attempt uses h*min(max(s, 0.25), decr_f), and 0.25*h if the factor could not be computed (inf or NaN). After an accepted step the suggested next step is h*min(s, 4) if that factor exceeds incr_f and h otherwise, always under the configuration in force at that moment.",
  ["inputs", "histories", "configurations"],
  "All sequences of step factors, for every configuration.",
  "Tests check single calls of the helper methods with a few factors; the law has to hold along every sequence of rejections and acceptances and at every clamp.",
  [AS], [("rejected-step reduction", AS), ("accepted-step suggestion", AS)],
  MC, "explicit-state model of the controller; every environment path replayed on the implementation",
  "All answer sequences up to the depth bound over an alphabet with a representative of every clamp region; real solvers monitored on a problem grid.",
  ["step"])
p("C03", "Adaptive integration always ends: a finite state or one of two errors",
  "One adaptive step makes at most 51 attempts: it returns a finite state, raises MaxLoopsExceeded after exactly 51 rejections, or raises MinimumStepReached at the first rejection that takes the step below minh (MaxLoopsExceeded if both happen at once). Whatever values the nonlinear function returns at any of its calls (inf and NaN included), step and evolve neither loop forever nor return a non-finite state, and both errors can be caught as the solver's SolverError and as RuntimeError.",
  ["fault_sequences", "histories", "configurations"],
  "Every call of the nonlinear function at which a fault can occur, every kind of fault, every lasso of rejected attempts, every minimum step.",
  "The tests provoke each error once with one hand-picked problem; they cannot place a fault at every evaluation or try every count of rejections around the limit.",
  [AS] + ADAPT, [("attempt limit", AS), ("minimum step", AS)],
  MC, "model of the attempt loop explored exhaustively and replayed; fault enumeration at every call on the real solvers",
  "Reject scripts of every length around the limit, a grid of minh values, inf/nan/overflow faults at every nonlinear-function call of short runs, single and persistent.",
  ["step", "evolve"])
p("C04", "Adaptive evolve covers [t0, tf] with strictly increasing, contiguous steps",
  "An adaptive evolve starts at t0 with the given initial step ((tf-t0)/100 if none, shortened to the interval if longer), advances time by exactly the accepted step each time, proposes the controller's suggestion for the next one (shortened when it would pass tf), and ends exactly at tf up to rounding. While its steps are above the rounding of t it never proposes a step past tf nor revisits a time, and it returns the initial state untouched when tf <= t0.",
  ["histories", "inputs"],
  "All sequences of accept/reject outcomes, all intervals (any sign and size of t0, tf) and initial steps.",
  "Tests integrate a handful of intervals starting at 0 and look at the final value only.",
  [AS], [("evolution loop", AS)],
  MC, "explicit-state model of the evolve loop; every environment path replayed on the implementation",
  "All decision sequences up to the depth bound x a grid of intervals and initial steps, plus runs of more than 1000 steps.",
  ["evolve", "t", "step"])
p("C05", "Constant-step evolve takes exactly (tf-t0)/h steps on a uniform grid",
  "A constant-step evolve over an interval of N steps (up to rounding) takes exactly N steps of size h and ends at tf, whatever t0, tf and h are; if the interval is not a whole number of steps it takes the first step that reaches tf and stops. A step that is not positive or is longer than the interval is refused with ValueError before anything is evaluated.",
  ["inputs"],
  "All N, h and t0 (decimal, binary and irrational step sizes; negative and large t0).",
  "Whether accumulated rounding adds or loses a step depends on the particular h, t0 and N; tests use a few benign values.",
  [CS] + CONST, [("constant-step loop", CS)],
  EX, "exhaustive exploration of an interval/step-size grid on the implementation",
  "Every N up to the bound for every h and t0 of the grid, all three constant-step solvers.",
  ["evolve", "t", "step"])
p("C06", "Stored snapshots are exactly the trajectory, at the requested frequency",
  "After evolve, t and u hold the initial time and state followed by the time and state after every store_freq-th step and nothing else (nothing at all with store_data=False), each snapshot keeping the value the solution had at that time however the solver is used later. Storage and log level have no influence on the computed steps or the returned state.",
  ["configurations", "histories"],
  "All combinations of solver, operator form, store_data, store_freq and log level, and later uses of the solver.",
  "Tests compare lengths for one frequency; they do not compare each snapshot with the trajectory or look at snapshots after further use (aliasing).",
  [AS, CS] + SCHEMES, [("snapshot storage", AS), ("snapshot storage", CS)],
  EX, "exhaustive exploration of storage configurations and follow-up operations on the implementation",
  "All solvers and operator forms x store settings x log levels, short trajectories, every store_freq up to beyond the number of steps.",
  ["t", "u", "evolve"])
p("C07", "Evolve does not depend on what the solver did before",
  "The result, the stored data and the accepted steps of evolve are identical to those of a newly constructed solver, whatever sequence of evolve, step and reset calls came before on the same object, including calls that ended in an exception raised by the nonlinear function or by the solver. After reset() the same holds for step, and the stored data is empty.",
  ["histories", "fault_sequences"],
  "All operation sequences up to a depth, with an exception at every nonlinear-function call.",
  "The solvers cache coefficients, the last nonlinear evaluation and the accept flag between calls; tests reuse a solver only in one or two orders and never after an exception.",
  [AS, CS] + SCHEMES, [("reset of cached state", AS), ("reset of cached state", CS)],
  FE, "exhaustive enumeration of operation histories with injected exceptions, differential against a fresh object",
  "All operation sequences up to the depth bound over an operation alphabet, an exception injected at every evaluation of short runs; results compared exactly.",
  ["evolve", "step", "reset", "t", "u"])
p("C08", "Stepping by hand is the same as evolve; failed attempts leave no trace",
  "A chain of step calls, each fed with the previous result, produces for any sequence of step sizes the states that independent single steps from freshly constructed solvers produce, and with evolve's step sizes it produces evolve's states. Attempts that were rejected, and attempts that ended in an exception and are repeated, leave no trace in later results.",
  ["histories", "fault_sequences"],
  "All sequences of step sizes (repeated, changed, returned to), all patterns of rejected attempts, an exception at every evaluation.",
  "Reuse of the last stage (FSAL) and of cached coefficients is only right for particular histories; tests call step once or in one fixed pattern.",
  [AS, CS] + SCHEMES, [("FSAL reuse", ADAPT[0]), ("coefficient cache keyed by h", ADAPT[1])],
  FE, "exhaustive enumeration of step-size/rejection/exception histories, differential against fresh solvers",
  "All step-size sequences up to the depth bound over an alphabet of sizes, every rejection pattern reachable through it, an exception at every evaluation.",
  ["step", "evolve"])
p("C09", "Solver objects do not influence each other",
  "Any number of solver objects, of the same or different classes and sizes, produce exactly the results each would produce alone, however their constructions, steps and evaluations are interleaved (alternating calls, one solver run inside another's nonlinear function, or concurrent threads). Changing the configuration object of a solver built without one changes no other solver.",
  ["schedules", "histories"],
  "All interleavings of two or three solvers at nonlinear-function granularity up to a preemption bound, and all nesting points.",
  "Shared class-level or module-level caches and default objects only show when two instances are alive and alternate; tests use one solver at a time.",
  [AS, CS, "rkstiff/etd.py"] + SCHEMES, [("per-object state", "rkstiff/solver.py")],
  EX, "stateless model checking: all schedules under a controlled scheduler up to a preemption bound",
  "All schedules with at most two preemptions for every pair of solver classes of the quick set, at the granularity of nonlinear-function calls (code between two such calls runs atomically).",
  ["evolve", "step"])
p("C10", "Data owned by the caller is never modified",
  "No call of the library modifies an array or object passed to it: the linear operator, initial and step states, grids, matrices, configuration objects, and the arrays handed to or returned by the nonlinear function. Arrays the library has returned or stored are not modified by any later call.",
  ["inputs", "histories"],
  "All public functions and solver methods, all argument forms (real, complex, integer, read-only, non-contiguous), call histories.",
  "In-place updates of working arrays only corrupt data that is kept; tests mostly discard arguments after one call.",
  [AS, CS, "rkstiff/grids.py", "rkstiff/derivatives.py", "rkstiff/transforms.py", "rkstiff/models.py"] + SCHEMES,
  [("no in-place operations on caller arrays", "rkstiff/etd34.py")],
  EX, "exhaustive exploration of argument forms and call histories with checksummed and read-only arrays",
  "Every public entry point x argument forms; every array given or received is snapshotted and compared after each later call of short histories.",
  ["evolve", "step", "nl_func", "all module functions"])
p("C11", "Every method advances one step by its published scheme at any stiffness",
  "For every linear spectrum (zero, tiny, around the psi-function cutoff, moderate, very stiff, oscillatory, growing, and any mixture within one operator) and step size, one step of each solver equals its published exponential Runge-Kutta scheme evaluated in exact arithmetic, to near machine precision relative to the solution. For adaptive solvers the embedded error estimate, as visible in the suggested step size, equals the published one as well.",
  ["inputs", "configurations"],
  "All values of h*L on a grid of magnitudes and directions, all mixtures of small and large modes, several ETD configurations.",
  "Accuracy of the psi-function coefficients depends on the magnitude of each mode (cancellation, contour integrals, cutoff); tests integrate a few fixed problems to loose tolerances.",
  ["rkstiff/etd.py"] + SCHEMES, [("contour/direct evaluation switch", "rkstiff/etd.py"), ("scheme coefficients", ADAPT[2])],
  EX, "exhaustive exploration of a stiffness grid, differential against reference implementations of the schemes",
  "Grid over magnitude x argument of h*L including pairs of modes on both sides of the cutoff, all operator forms, against independently coded tableaux with series/expm psi functions.",
  ["step"])
p("C12", "Every method has its order of accuracy, with and without a linear part",
  "Without a linear part each solver satisfies every Runge-Kutta order condition up to its order (4 for IF4, ETD4, IF34, ETD34; 5 for ETD5, ETD35, IF45DP), and the embedded error estimate vanishes up to the embedded order (3, or 4 for IF45DP). With a linear part all order conditions containing L hold up to the same order (for ETD5 and ETD35 at order 5 only if L commutes with the Jacobian of N, otherwise up to order 4), and local and global errors decrease at that rate.",
  ["inputs"],
  "All rooted trees up to the order (all elementary differentials), both operator forms.",
  "Convergence tests on scalar or special problems do not exercise all elementary differentials; a wrong coefficient may only affect one tree.",
  SCHEMES, [("tableau coefficients", ADAPT[2])],
  EX, "exhaustive enumeration of all rooted trees up to the order, each as a polynomial system run on the implementation",
  "All rooted trees with at most order nodes, and all bicoloured trees (nodes for L and N) for the full-matrix forms; local and global error slopes on enumerated problems for the others.",
  ["step"])
p("C13", "Diagonal, full-matrix and diagonalized operators give the same solution",
  "A problem posed with a 1D (diagonal) operator, with the equal 2D matrix, or with diagonalize=True takes the same steps and gives the same states up to rounding, and so does a problem transformed by a unitary change of basis (adaptive solvers: if no modes are masked). Integer, real and complex double types and memory layouts of operator, state and nonlinear term that hold equal values make no difference.",
  ["inputs", "configurations"],
  "All solvers and operator forms on enumerated spectra (stiff, non-normal, complex, singular for the non-diagonalized forms), bases, dtypes and layouts.",
  "Each form is separate code; tests compare final values of one or two problems at loose tolerances, so error estimates or coefficients may differ unnoticed.",
  SCHEMES + ["rkstiff/etd.py"], [("strategy classes per operator form", ADAPT[0])],
  EX, "exhaustive exploration of operator forms, differential within the implementation",
  "All solvers x forms x enumerated operators, whole adaptive trajectories compared.",
  ["evolve", "step"])
p("C14", "Linear problems and equilibria are integrated exactly",
  "With no nonlinear term every solver returns exp(h L) u up to rounding, whatever the step size, and with a constant nonlinear term the ETD solvers return the exact solution of the affine problem. A state with L u + N(u) = 0 stays where it is under the ETD solvers, and adaptive solvers accept every such step.",
  ["inputs"],
  "All spectra of the grid, steps from tiny to far beyond the time scales of L, all operator forms.",
  "The defining property of exponential integrators has to hold for every h*L; tests use one or two operators.",
  SCHEMES + ["rkstiff/etd.py"], [("exact linear propagation", "rkstiff/etd.py")],
  EX, "exhaustive exploration of operators and step sizes against closed-form solutions",
  "Grid of operators x step sizes x solvers; exact solution by eigen/exponential formulas.",
  ["step", "evolve"])
p("C15", "Adaptive solutions are as accurate as the tolerance asks",
  "On non-growing problems the global error of an adaptive evolve is bounded by a moderate multiple of epsilon times the number of characteristic times, for every admissible initial step, tolerance, solver and operator form, and it decreases as epsilon is decreased. The answer does not depend (beyond that error) on the initial step.",
  ["inputs", "configurations"],
  "All solvers, operator forms, tolerances and initial steps (far too small to far too large) of the grid.",
  "Tests check final errors for one tolerance and the default initial step.",
  [AS] + ADAPT, [("error control", AS)],
  EX, "exhaustive exploration of tolerance x initial step x problem against exact solutions",
  "Problems with closed-form or high-precision solutions; constants are calibrated with a wide margin.",
  ["evolve"])
p("C16", "Solutions do not depend on time origin, time unit or mode numbering",
  "Shifting t0 and tf by the same amount, measuring time in another unit (L, N, h and t scaled by a power of two), renumbering the modes, or appending uncoupled copies or conjugates changes the states and accepted steps only up to rounding and only in the corresponding way.",
  ["inputs", "histories"],
  "All permutations of a small mode set, all shifts and scalings of the grid, all solvers.",
  "Metamorphic relations between runs are not tested at all.",
  SCHEMES + [AS, CS], [("autonomous stepping", AS)],
  EX, "exhaustive exploration of metamorphic pairs on the implementation",
  "All permutations of the modes, grids of shifts and scalings; complete trajectories compared.",
  ["evolve", "step", "t"])
p("C17", "Adaptive and constant-step solvers of one scheme agree step for step",
  "A step accepted by ETD35, ETD34 or IF34 yields the same state as one step of ETD5, ETD4 or IF4 of the same size from the same state, up to rounding, all along a trajectory. This holds for both operator forms.",
  ["inputs", "histories"],
  "All step-size sequences chosen by the controller over the grid of problems and tolerances.",
  "The constant-step and adaptive classes duplicate all coefficients in separate code; no test compares them.",
  SCHEMES, [("duplicated tableaux", "rkstiff/etd5.py")],
  EX, "exhaustive exploration of problems and tolerances, differential between sibling solvers",
  "Every accepted step of enumerated adaptive runs is replayed on the constant-step sibling, chained and fresh.",
  ["step", "evolve"])
p("C18", "Configurations never hold an invalid value, and what is set takes effect",
  "Constructors and setters of the two configuration classes accept exactly the documented ranges, raise ValueError (TypeError for a non-integer number of contour points) for every other number, NaN included, and keep every previous value when they refuse. A value that was accepted is read back and governs every later step of the solvers holding that configuration.",
  ["inputs", "histories"],
  "All sequences of setter calls up to a depth over boundary values, on all attributes.",
  "Tests try one bad value per attribute; boundaries, NaN, state after a refusal and effect on the next run are not covered.",
  [AS, "rkstiff/etd.py"], [("validating setters", AS), ("validating setters", "rkstiff/etd.py")],
  EX, "exhaustive enumeration of setter sequences against a reference state machine",
  "All sequences up to the depth bound over boundary alphabets, and effect of each accepted value on the following evolve.",
  ["SolverConfig", "ETDConfig", "evolve"])
p("C19", "Constructors accept exactly the supported operators and solver types are right",
  "A solver is constructed for every non-empty 1D array and every square 2D array (1D only for IF45DP; with diagonalize=True only 2D operators that are not singular are diagonalized), and ValueError is raised for any other shape. The reported solver type is constant-step for IF4, ETD4, ETD5 and adaptive-step for IF34, ETD34, ETD35, IF45DP, asked from the solver itself or through SolverType.from_solver, which refuses anything that is not a solver with TypeError.",
  ["inputs", "configurations"],
  "All operator shapes up to a size in up to four dimensions, all solvers and options.",
  "Tests try a couple of wrong shapes on one solver.",
  ["rkstiff/solver.py", "rkstiff/util/solver_type.py"] + SCHEMES, [("operator validation", "rkstiff/solver.py"), ("solver type", "rkstiff/util/solver_type.py")],
  EX, "exhaustive enumeration of operator shapes, classes and options",
  "All shapes with up to 4 axes and extents up to 3 (quick), all classes.",
  ["constructors", "solver_type", "SolverType"])
p("C20", "Logging configuration is predictable, never duplicated and has no side effects",
  "After any sequence of logger set-ups and level changes, each named logger has at most one handler added by the library, the level last set through a valid name (any case) or number, and an invalid name raises ValueError and changes nothing. Messages appear once, only at or above that level, on the logger named after the solver class, and progress messages give the percentage of the interval covered.",
  ["histories"],
  "All sequences of logging operations up to a depth, over the names and levels of the alphabet.",
  "Loggers are process-global; tests check single calls.",
  ["rkstiff/util/loghelper.py", "rkstiff/solver.py", AS, CS], [("handler added once", "rkstiff/util/loghelper.py")],
  EX, "exhaustive enumeration of logging operation sequences against a reference state machine",
  "All sequences up to the depth bound over 2-3 loggers and the level alphabet; message capture of real runs.",
  ["logging records", "setup_logger", "set_log_level"])
p("C21", "Fourier grids have n uniform points in [a,b) and matching wavenumbers",
  "For every even n > 2 and every interval the Fourier grids have exactly n equally spaced points starting at a and ending one spacing before b, with the wavenumbers 2*pi*m/(b-a) in FFT order (n/2+1 of them for the real transform). Any other n is refused: TypeError if it is not an integer, ValueError if it is odd or not greater than 2.",
  ["inputs"],
  "All n up to a bound, all intervals of the grid (including those whose spacing rounds unfavourably).",
  "The number of points produced by floating-point ranges depends on n, a and b; tests try a few.",
  ["rkstiff/grids.py"], [("uniform grid construction", "rkstiff/grids.py")],
  EX, "exhaustive enumeration of grid sizes and intervals",
  "Every even n up to the bound x interval grid, against exact rational formulas.",
  ["construct_x_kx_rfft", "construct_x_kx_fft"])
p("C22", "Fourier derivatives are exact for every resolved mode and order",
  "On a Fourier grid the spectral derivatives of any order are exact (up to rounding) for every resolved Fourier mode and, by linearity, all their combinations, the zeroth derivative being the function itself; dx_rfft serves real and dx_fft complex data, on any number of points. Non-integer orders raise TypeError, negative orders and mismatched wavenumber arrays ValueError, complex data for dx_rfft TypeError.",
  ["inputs"],
  "All grid sizes, all modes, all orders up to a bound, intervals of the grid.",
  "Tests differentiate a few smooth functions.",
  ["rkstiff/derivatives.py", "rkstiff/grids.py"], [("spectral derivative", "rkstiff/derivatives.py")],
  EX, "exhaustive enumeration of modes, orders and grid sizes (a basis decides all inputs by linearity)",
  "Every mode of every grid size up to the bound, every order up to the bound; linear, so the mode basis decides all data.",
  ["dx_rfft", "dx_fft"])
p("C23", "Chebyshev grids and derivatives are exact for all polynomials they resolve",
  "The Chebyshev grid of order n consists of the n+1 Gauss-Lobatto points of [a,b] in increasing order (end points included, up to rounding), and the differentiation matrix and dx_cheb of any order are exact (up to its conditioning) on all polynomials of degree at most n, column by column for 2D data. Inputs of wrong type, order or shape are refused with TypeError or ValueError.",
  ["inputs"],
  "All n up to a bound, all polynomial degrees and derivative orders, intervals of the grid.",
  "Tests use one or two n and smooth functions.",
  ["rkstiff/derivatives.py", "rkstiff/grids.py"], [("differentiation matrix", "rkstiff/grids.py")],
  EX, "exhaustive enumeration of a polynomial basis, orders and grid sizes",
  "Chebyshev polynomial basis of every grid size up to the bound; linear, so the basis decides all data.",
  ["construct_x_cheb", "construct_x_dx_cheb", "dx_cheb"])
p("C24", "The discrete Hankel transform pair inverts itself and is the Hankel transform",
  "For every size and radius the radial and spectral grids are j_i*rmax/j_{N+1} and j_i/rmax for the Bessel zeros j_i, the forward and inverse transforms are linear and inverse to each other within the known accuracy of the quasi-discrete transform, and they agree with the continuous transform of resolved functions. Sizes below 4 and radii that are not positive raise ValueError.",
  ["inputs"],
  "All sizes up to a bound, radii of the grid, all basis vectors.",
  "Tests transform a Gaussian at one or two sizes.",
  ["rkstiff/transforms.py", "rkstiff/grids.py"], [("transform matrix", "rkstiff/transforms.py")],
  EX, "exhaustive enumeration of sizes, radii and basis vectors",
  "Every size up to the bound and every unit vector (linear maps are decided by a basis); Gaussians for the continuous transform.",
  ["HankelTransform", "construct_r_kr_hankel"])
p("C25", "A reconfigured Hankel transform equals a newly built one",
  "After any sequence of size and radius changes a Hankel transform object behaves exactly as one newly built with the final size and radius, and a refused change (ValueError) leaves it exactly as it was. The matrices and zeros it hands out are copies whose modification does not affect it.",
  ["histories"],
  "All sequences of setter calls up to a depth, including refused ones and uses in between.",
  "Grids, matrix and scale factor depend on both parameters; tests change each once.",
  ["rkstiff/transforms.py"], [("recomputation in setters", "rkstiff/transforms.py")],
  EX, "exhaustive enumeration of setter/use sequences, differential against a fresh object",
  "All sequences up to the depth bound over valid and invalid values of both parameters.",
  ["HankelTransform"])
p("C26", "mirror_grid reflects grid and data exactly",
  "For every radial grid and data array, mirror_grid returns the negated reversed grid followed by the grid, and the data reversed along the mirrored axis followed by the data (-1 for 1D data, 0 for rows, 1 for columns), without data if none was given. Any other axis is refused with ValueError.",
  ["inputs"],
  "All sizes and shapes up to a bound, all axes and data types.",
  "Tests check one size per axis.",
  ["rkstiff/grids.py"], [("mirroring", "rkstiff/grids.py")],
  EX, "exhaustive enumeration of shapes, axes and types with uniquely labelled entries",
  "Every shape up to the bound with distinct entries, every axis.",
  ["mirror_grid"])
p("C27", "Model operators are the right-hand sides of their equations",
  "The linear and nonlinear operators of the KdV, Burgers and Allen-Cahn models sum to the spatial discretization of the stated equation for every state, wavenumber grid and parameter: L and N equal their documented formulas in transform space. On real data KdV and Burgers conserve the mean, the nonlinear terms are quadratic (cubic for Allen-Cahn), and calls do not influence each other.",
  ["inputs"],
  "All grid sizes, all single modes, pairs (and triples) of modes, parameters of the grid.",
  "Tests check shapes and a few values.",
  ["rkstiff/models.py"], [("operator factories", "rkstiff/models.py")],
  EX, "exhaustive enumeration of mode pairs/triples (polynomial maps are decided by them)",
  "All pairs of modes with complex coefficients on every grid size up to the bound; Allen-Cahn on all triples of basis vectors.",
  ["kdv_ops", "burgers_ops", "allen_cahn_ops"])
p("C28", "Soliton profiles solve KdV and superpose",
  "kdv_soliton(x, a, x0, t) satisfies u_t + 6 u u_x + u_xxx = 0 with peak a^2/2 at x0 + a^2 t for every amplitude, position and time, and kdv_multi_soliton is the sum of its solitons. Amplitude and position lists of different lengths are refused with ValueError.",
  ["inputs"],
  "All amplitudes, positions, times and numbers of solitons of the grid.",
  "Tests check t=0 and one or two parameters.",
  ["rkstiff/models.py"], [("closed-form soliton", "rkstiff/models.py")],
  EX, "exhaustive enumeration of a parameter grid against the closed form and the PDE residual",
  "Grid of amplitudes x positions x times; PDE residual by high-order differences.",
  ["kdv_soliton", "kdv_multi_soliton"])
p("C29", "Grids, models and solvers together reproduce known PDE solutions",
  "Every solver that supports the operator form, combined with the library's grids, derivatives, transforms and models, reproduces known exact solutions (KdV soliton, Burgers by Cole-Hopf, Allen-Cahn and heat equation on a Chebyshev grid, diffraction of a Gaussian beam on a Hankel grid) within discretization error and tolerance. The conserved quantities of each equation are conserved to the same accuracy.",
  ["inputs", "configurations"],
  "All solvers x models x enumerated grids, parameters and tolerances.",
  "Tests integrate a few of these with loose tolerances and one setting each.",
  ["rkstiff/models.py", "rkstiff/grids.py", "rkstiff/derivatives.py", "rkstiff/transforms.py"] + SCHEMES,
  [("composition of public API", "rkstiff/models.py")],
  EX, "exhaustive exploration of solver x model x parameter combinations against exact solutions",
  "Every combination of the grid; tolerances with a wide margin over the measured error.",
  ["evolve"])

NA = []  # (id, reason)

CLAIMED = None  # None: all with a check module


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for d in P:
            assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
            a = {"files": list(dict.fromkeys(d["files"])),
                 "mechanism": [{"name": n, "where": w} for n, w in d["mech"]], "hook_needed": None}
            if d["observe"]:
                a["observe_at"] = d["observe"]
            f.write(json.dumps({"id": d["id"], "title": d["title"], "statement": d["statement"],
                                "quantifier": {"over": d["over"], "text": d["qtext"]},
                                "why_tests_cant": d["why"], "anchors": a}) + "\n")
    checks, na = [], [{"property": i, "reason": r} for i, r in NA]
    for d in P:
        if d["id"] in [i for i, _ in NA]:
            continue
        if not os.path.exists(os.path.join(HERE, "mc/checks/%s.py" % d["id"].lower())):
            na.append({"property": d["id"], "reason": "check under construction"})
            continue
        cmd = "python3 check.py %s --tier " % d["id"]
        checks.append({"property": d["id"], "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough",
                       "technique": d["technique"], "level": d["level"], "level_note": d["note"]})
    m = {"version": 1, "setup_cmd": "python3 tools/selftest.py", "checks": checks, "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
