#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay editable)."""
import json, os
H = "include/boost/numeric/odeint/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[H+f for f in files],
                     mechanism=[dict(name=n, where=H+w if not w.startswith('/') else w) for n, w in mech],
                     **({"state":[dict(name=a, meaning=b, where=H+c) for a,b,c in state]} if state else {}),
                     **({"observe_at":observe} if observe else {}), hook_needed=hook)))

prop("C01", "Equidistant integration observes exactly the grid t0 + n*dt",
 "For every kind of stepper (plain, error-controlled, dense-output), every start, end and step size, forward or backward, equidistant integration calls the observer exactly once, in order, at each grid time t0 + n*dt that does not pass the end time (with tolerance only for rounding), starting with the untouched initial state at t0. The state handed to each call is the solution at exactly that time, whatever sequence of accepted and rejected internal steps the stepper took, and no internal state is ever evaluated outside the last step made. On return the caller's state holds the solution at the last grid time and the returned count is consistent with the steps made.",
 ["inputs","histories","configurations"],
 "All (t0, t1, dt) up to rounding, all accept/reject/step-size decisions of the stepper, all stepper categories, both directions, stepper by value or by reference, both implementations (loop based and iterator based).",
 "Tests run a handful of (t0,t1,dt) triples, almost all forward with an interval that is a multiple of the step and a step that is never rejected; the guarantee is over every decision sequence of the stepper.",
 ["integrate/integrate_const.hpp","integrate/detail/integrate_const.hpp","iterator/integrate/detail/integrate_const.hpp","util/detail/less_with_sign.hpp"],
 [("grid time recomputed from the step counter","integrate/detail/integrate_const.hpp"),("direction-aware comparison","util/detail/less_with_sign.hpp")],
 observe=["observer calls","return value","caller's state"])

prop("C02", "Integration over n steps observes n+1 grid points and ends at t0 + n*dt",
 "For every kind of stepper, every n (including zero), and either direction, integrating n steps calls the observer exactly n+1 times, at t0 + k*dt for k = 0..n, each time with the solution at exactly that time. It returns t0 + n*dt and leaves the solution at t0 + n*dt in the caller's state.",
 ["inputs","histories","configurations"],
 "All n, t0, dt of either sign, all accept/reject/step-size decisions, all stepper categories.",
 "Tests use few n, forward only for dense output, and never check the final state left by dense-output steppers.",
 ["integrate/integrate_n_steps.hpp","integrate/detail/integrate_n_steps.hpp","iterator/integrate/detail/integrate_n_steps.hpp"],
 [("step counter and grid time","integrate/detail/integrate_n_steps.hpp")],
 observe=["observer calls","return value","caller's state"])

prop("C03", "Adaptive integration observes every step and ends exactly at the end time",
 "Adaptive integration calls the observer at the start time, after every accepted step and nowhere else, so the observed times are strictly monotone from the start time to exactly the end time in the direction of integration, and each observed state is the stepper's state at that time. Steps never go past the end time; rejected steps are neither observed nor counted and leave no trace in the observed states. The number returned is the number of accepted steps and the caller's state is the solution at the end time.",
 ["inputs","histories","configurations"],
 "All start/end/step values of either sign, all accept/reject/step-size decision sequences of the stepper, all stepper categories, and the stepper-free convenience call.",
 "Tests follow a few smooth problems for which rejections and shortened last steps happen by accident, if at all; backward and empty intervals are hardly touched.",
 ["integrate/integrate_adaptive.hpp","integrate/integrate.hpp","integrate/detail/integrate_adaptive.hpp","iterator/integrate/detail/integrate_adaptive.hpp"],
 [("trimming of the step to the end time","integrate/detail/integrate_adaptive.hpp"),("retry loop on rejection","integrate/detail/integrate_adaptive.hpp")],
 observe=["observer calls","return value","caller's state"])

prop("C04", "Integration over given time points observes exactly those points",
 "Given any monotone sequence of time points, increasing or decreasing, regularly spaced or not, integration calls the observer exactly once per point, in order, with exactly that time and the solution at that time, for every kind of stepper and whatever the stepper accepts or rejects. The caller's state ends as the solution at the last point, and an interval longer or shorter than the step size is crossed without skipping or repeating a point.",
 ["inputs","histories","configurations"],
 "All monotone time sequences (also of length one), all initial step sizes, all accept/reject/step-size decision sequences, all stepper categories, iterator and range interface.",
 "Tests use one equally spaced list per stepper; the interplay of shortened steps, rejections and step-size memory is never enumerated.",
 ["integrate/integrate_times.hpp","integrate/detail/integrate_times.hpp","iterator/integrate/detail/integrate_times.hpp"],
 [("step shortened to the next time point and restored","integrate/detail/integrate_times.hpp")],
 observe=["observer calls","return value","caller's state"])

prop("C05", "Step limits fire exactly when exceeded, and never otherwise",
 "A step limit of N given to an integration function lets up to N steps be made between two observer calls and raises the no-progress error as soon as more are needed; observing restarts the count. A stepper that keeps rejecting is stopped by an error after a bounded number of attempts instead of looping forever, and no integration whose rejections and steps stay within the limits ever raises one of these errors. Observations made before the error are exactly those of the unlimited run.",
 ["inputs","histories","fault_sequences","configurations"],
 "All limits N, all decision sequences of the stepper (number of sub-steps and rejections in each observation interval), all integration functions that accept a limit, all stepper categories.",
 "One overflow test uses two limits on one problem; the off-by-one and reset behaviour in each of the functions and categories is not sampled.",
 ["integrate/max_step_checker.hpp","integrate/check_adapter.hpp","integrate/detail/integrate_const.hpp","integrate/detail/integrate_times.hpp","integrate/detail/integrate_adaptive.hpp","util/odeint_error.hpp","iterator/impl/times_iterator_impl.hpp","iterator/adaptive_iterator.hpp"],
 [("counting checkers","integrate/max_step_checker.hpp"),("stepper and observer wrappers calling the checker","integrate/check_adapter.hpp")],
 state=[("step counter","steps since the last observation","integrate/max_step_checker.hpp")],
 observe=["exceptions","observer calls"])

prop("C06", "Solution iterators and ranges enumerate the same solution as the integrators",
 "Walking any of the solution iterators or ranges (constant step, n steps, given times, adaptive; with or without time) yields exactly the sequence of states, and times, that the corresponding integration function shows its observer, from the initial state to the last point, and then compares equal to the end; before that it compares different from the end. This holds for every stepper category, both directions and for intervals too short to hold a step, and the referenced state is the user's state after each increment.",
 ["inputs","histories","configurations"],
 "All iterator kinds and stepper categories, all intervals and steps of either sign, pre- and post-increment, iterator pairs and ranges, all accept/reject/step-size decision sequences.",
 "Iterator tests use dummy steppers with one interval, forward in nearly all cases.",
 ["iterator/const_step_iterator.hpp","iterator/n_step_iterator.hpp","iterator/times_iterator.hpp","iterator/adaptive_iterator.hpp","iterator/const_step_time_iterator.hpp","iterator/n_step_time_iterator.hpp","iterator/times_time_iterator.hpp","iterator/adaptive_time_iterator.hpp","iterator/impl/const_step_iterator_impl.hpp","iterator/impl/n_step_iterator_impl.hpp","iterator/impl/times_iterator_impl.hpp","iterator/detail/ode_iterator_base.hpp"],
 [("increment advances the stepper and sets the end flag","iterator/impl/const_step_iterator_impl.hpp"),("end comparison","iterator/detail/ode_iterator_base.hpp")],
 observe=["dereferenced values","comparison with the end iterator"])

prop("C07", "A rejected trial step has no effect; an accepted one advances by the tried step",
 "For every step-size controlled stepper and every history of trial steps: a rejected trial leaves state and time exactly as they were and returns a step size of the same sign and strictly smaller magnitude; an accepted trial advances time by exactly the step size tried and the state to the solution of the underlying method for that step. A trial following a rejection gives the same new state as if the rejected trial had never been made (extrapolation steppers, which adapt their order to a rejection, to the requested tolerance).",
 ["inputs","histories","fault_sequences","configurations"],
 "All sequences of accepted and rejected trials (error estimates chosen adversarially), both directions, in-place and out-of-place calls, with and without user-supplied derivatives, all controlled steppers.",
 "Tests drive each controller through a few smooth trials; a rejection in the middle of a history and the cached derivative surviving it are not exercised systematically.",
 ["stepper/controlled_runge_kutta.hpp","stepper/rosenbrock4_controller.hpp","stepper/bulirsch_stoer.hpp","stepper/controlled_adams_bashforth_moulton.hpp"],
 [("out-of-place trial then commit","stepper/controlled_runge_kutta.hpp"),("cached derivative of first-same-as-last steppers","stepper/controlled_runge_kutta.hpp")],
 state=[("cached derivative","derivative at the current time and state kept between trials","stepper/controlled_runge_kutta.hpp")],
 observe=["returned accept/reject","x, t, dt after the call"])

prop("C08", "Acceptance and the next step size follow the documented tolerance law",
 "A trial is accepted if and only if the error estimate, weighted componentwise by eps_abs + eps_rel*(a_x*|x| + a_dxdt*|dt|*|dxdt|) in the maximum norm, does not exceed one; the next step size then follows the documented power law in that error with the documented safety factor and is never cut by more than a factor of five nor grown by more than a factor of five. The Rosenbrock controller uses the root mean square of the weighted error and its documented predictive law with factors between one fifth and six. When a maximal step size is configured, no accepted step and no proposed step size exceeds it in magnitude.",
 ["inputs","histories","configurations"],
 "All error estimates, tolerances, states, derivatives and step sizes of either sign, all histories of trials, with and without a maximal step size.",
 "Tests pin the law at a couple of error values and one maximal step size; thresholds and clamps are boundary conditions over all error values.",
 ["stepper/controlled_runge_kutta.hpp","stepper/rosenbrock4_controller.hpp","stepper/bulirsch_stoer.hpp","stepper/bulirsch_stoer_dense_out.hpp","algebra/default_operations.hpp","algebra/detail/norm_inf.hpp"],
 [("error checker","stepper/controlled_runge_kutta.hpp"),("step adjuster","stepper/controlled_runge_kutta.hpp"),("maximal step size check","util/detail/less_with_sign.hpp")],
 observe=["returned accept/reject","dt after the call"])

prop("C09", "Dense output: steps chain, ends interpolate exactly, queries are pure",
 "For every dense-output stepper and every history of steps and queries: each step reports an interval that begins where the previous one ended and extends in the direction of integration; querying the state at either end of the last interval gives the stepper's state there, and querying anywhere in the interval gives the solution at that time to the accuracy of the method. Queries never change what later steps and queries return, and re-initialising discards all earlier history.",
 ["inputs","histories","configurations"],
 "All histories of initialise, step, query (any time in the last interval, in any order and number), copy and re-initialise; both directions; all dense-output steppers.",
 "Tests step each dense stepper through one fixed loop and check a couple of interior points.",
 ["stepper/dense_output_runge_kutta.hpp","stepper/rosenbrock4_dense_output.hpp","stepper/bulirsch_stoer_dense_out.hpp","stepper/runge_kutta_dopri5.hpp","stepper/rosenbrock4.hpp","stepper/euler.hpp"],
 [("two state buffers toggled per step","stepper/dense_output_runge_kutta.hpp"),("continuous extension","stepper/runge_kutta_dopri5.hpp")],
 state=[("current/old state buffers","end points of the last interval","stepper/dense_output_runge_kutta.hpp")],
 observe=["interval returned by a step","queried states","current and previous state/time"])

prop("C10", "Explicit one-step methods have their advertised order for every system",
 "Every explicit one-step stepper agrees with the exact solution of any smooth system, autonomous or time dependent, at any start time and with a step of either sign, up to and including the power of the step size given by its advertised order, in whatever floating-point type it is used to the precision of that type. The system is evaluated at the stage times belonging to the stage states.",
 ["inputs","programs","configurations"],
 "All right-hand sides: by B-series theory the finitely many rooted trees up to the advertised order decide it for every smooth system.",
 "Tests check linear oscillators and a few power-law problems, for which most order conditions are never exercised (a wrong coefficient multiplying a tree that vanishes for linear problems passes).",
 ["stepper/euler.hpp","stepper/runge_kutta4.hpp","stepper/runge_kutta4_classic.hpp","stepper/runge_kutta_cash_karp54.hpp","stepper/runge_kutta_cash_karp54_classic.hpp","stepper/runge_kutta_dopri5.hpp","stepper/runge_kutta_fehlberg78.hpp","stepper/explicit_generic_rk.hpp","stepper/explicit_error_generic_rk.hpp","stepper/detail/generic_rk_algorithm.hpp","stepper/modified_midpoint.hpp","stepper/extrapolation_stepper.hpp"],
 [("Butcher tableaux","stepper/runge_kutta_fehlberg78.hpp"),("generic stage evaluation","stepper/detail/generic_rk_algorithm.hpp")],
 observe=["result of one step"])

prop("C11", "Error estimates are the difference to an embedded method of the advertised order",
 "For every error-estimating stepper and every smooth system the error estimate vanishes up to and including the power of the step size given by the advertised error order, and is generically nonzero at the next power; adding it back to (or subtracting it from) the result gives a consistent method of the lower order. Requesting the estimate does not change the step result.",
 ["inputs","programs","configurations"],
 "All right-hand sides (decided by the rooted trees up to the error order plus one), all error steppers, all call variants that return an estimate.",
 "Tests only check that the estimate has roughly the right size on one or two problems.",
 ["stepper/runge_kutta_cash_karp54.hpp","stepper/runge_kutta_cash_karp54_classic.hpp","stepper/runge_kutta_dopri5.hpp","stepper/runge_kutta_fehlberg78.hpp","stepper/explicit_error_generic_rk.hpp","stepper/rosenbrock4.hpp","stepper/base/explicit_error_stepper_base.hpp","stepper/base/explicit_error_stepper_fsal_base.hpp"],
 [("difference weights","stepper/runge_kutta_dopri5.hpp")],
 observe=["error estimate of one step"])

prop("C12", "Multistep methods integrate polynomials exactly and keep their history in step",
 "The Adams-Bashforth, Adams-Moulton and combined predictor-corrector steppers of every supported number of steps reproduce exactly any solution whose derivative is a polynomial in time of degree below the method's order, from any start time and with steps of either sign, once started with exact values. This stays true after any history of steps, resets, re-initialisations, copies and changes between in-place and out-of-place calls; a restart behaves exactly like a new stepper.",
 ["inputs","histories","configurations"],
 "All numbers of steps 1..8, all polynomial degrees below the order, all operation histories up to the depth bound.",
 "Tests run harmonic oscillators with a few step numbers and check order roughly; the rotating history is never compared with a reference after resets, copies or restarts.",
 ["stepper/adams_bashforth.hpp","stepper/adams_moulton.hpp","stepper/adams_bashforth_moulton.hpp","stepper/detail/adams_bashforth_coefficients.hpp","stepper/detail/adams_moulton_coefficients.hpp","stepper/detail/adams_bashforth_call_algebra.hpp","stepper/detail/adams_moulton_call_algebra.hpp","stepper/detail/rotating_buffer.hpp"],
 [("rotating buffer of derivatives","stepper/detail/rotating_buffer.hpp"),("coefficient tables","stepper/detail/adams_bashforth_coefficients.hpp"),("start-up counter","stepper/adams_bashforth.hpp")],
 state=[("step storage","derivatives at the previous grid points, newest first","stepper/adams_bashforth.hpp")],
 observe=["result of each step"])

prop("C13", "Extrapolation steppers deliver the requested tolerance for any step history",
 "The step-size and order controlled extrapolation steppers, with or without dense output, accept a step only if its result meets the requested tolerance on any smooth problem, forward and backward, regardless of the order and step-size choices remembered from earlier steps. They terminate for every tolerance they can reach, and a reset or re-initialised stepper behaves exactly like a new one.",
 ["inputs","histories","configurations"],
 "A grid of problems, tolerances, initial steps and directions, and all histories of trials, resets and problem switches up to the depth bound.",
 "Tests run one or two problems forward with one tolerance each.",
 ["stepper/bulirsch_stoer.hpp","stepper/bulirsch_stoer_dense_out.hpp","stepper/modified_midpoint.hpp"],
 [("Aitken-Neville extrapolation of midpoint results","stepper/bulirsch_stoer.hpp"),("order and step size control","stepper/bulirsch_stoer.hpp")],
 state=[("optimal order and last step","controller memory between steps","stepper/bulirsch_stoer.hpp")],
 observe=["accepted states versus exact solution"])

prop("C14", "Symplectic steppers are symplectic and have their advertised order",
 "For every separable Hamiltonian system each symplectic stepper's one-step map preserves the symplectic form exactly (up to rounding) for any step size of either sign, and agrees with the exact flow up to its advertised order. Passing the general pair of functions, the momentum-only shortcut, coordinates and momenta as a pair, as references or as separate arguments, in place or out of place, all give the same result.",
 ["inputs","programs","configurations"],
 "All separable Hamiltonians (order decided by the bicoloured trees up to the advertised order), all step sizes, all call variants.",
 "Tests check energy conservation of an oscillator and call the overloads only to see that they compile.",
 ["stepper/symplectic_euler.hpp","stepper/symplectic_rkn_sb3a_mclachlan.hpp","stepper/symplectic_rkn_sb3a_m4_mclachlan.hpp","stepper/base/symplectic_rkn_stepper_base.hpp","stepper/velocity_verlet.hpp"],
 [("alternating drift and kick stages","stepper/base/symplectic_rkn_stepper_base.hpp"),("coefficients","stepper/symplectic_rkn_sb3a_mclachlan.hpp")],
 observe=["result of one step"])

prop("C15", "Implicit steppers solve their implicit equations to the advertised order",
 "The Rosenbrock stepper agrees with the exact solution of every smooth stiff or non-stiff system, including explicitly time-dependent ones, up to and including its advertised order, given the system's Jacobian and time derivative; its error estimate vanishes to the advertised error order and its dense output is continuous and accurate in the whole step. The implicit Euler stepper returns a state satisfying the implicit equation of the step for every system for which its iteration converges.",
 ["inputs","programs","configurations"],
 "All right-hand sides with exact Jacobians (order decided by the rooted trees up to the advertised order), steps of either sign, any dimension.",
 "Tests check one stiff problem to coarse tolerance.",
 ["stepper/rosenbrock4.hpp","stepper/rosenbrock4_controller.hpp","stepper/rosenbrock4_dense_output.hpp","stepper/implicit_euler.hpp"],
 [("Rosenbrock coefficients","stepper/rosenbrock4.hpp"),("Newton iteration","stepper/implicit_euler.hpp")],
 observe=["result of one step","error estimate","dense output"])

prop("C16", "All call variants of a step give the same result and leave inputs untouched",
 "For every stepper, stepping in place, out of place, with a derivative supplied by the caller, with or without an error estimate, with the system passed by value or by reference, gives the same new state (and derivative and error where returned) from the same input. Out-of-place calls never modify the input state or supplied derivative, in-place calls equal out-of-place calls whose output is the input, and no variant calls the system outside the step.",
 ["inputs","configurations"],
 "All steppers, all their overloads, all states and steps from a grid, as first call on a new stepper and after earlier calls.",
 "Concept tests check that the overloads compile and hit one number for a constant right-hand side.",
 ["stepper/base/explicit_stepper_base.hpp","stepper/base/explicit_error_stepper_base.hpp","stepper/base/explicit_error_stepper_fsal_base.hpp","stepper/base/symplectic_rkn_stepper_base.hpp","stepper/extrapolation_stepper.hpp","stepper/adams_bashforth.hpp","stepper/adams_bashforth_moulton.hpp","stepper/controlled_runge_kutta.hpp","stepper/bulirsch_stoer.hpp"],
 [("overload forwarding","stepper/base/explicit_error_stepper_fsal_base.hpp")],
 observe=["output state, derivative, error of each overload"])

prop("C17", "A step's result depends only on its arguments and the documented history",
 "One-step steppers give the same result for the same arguments after any history of other calls. Steppers with documented memory (cached derivative, multistep history, order control, dense output) give the same results as a newly constructed stepper after reset or re-initialisation, and supplying a derivative explicitly overrides the memory, for every preceding history including other systems, other states and rejected steps.",
 ["histories","configurations"],
 "All histories of step (each overload), reset, initialise, trial, copy and assign operations up to the depth bound, for every stepper.",
 "Tests use a fresh stepper for nearly every check; stale scratch or cached derivatives show only after particular call sequences.",
 ["stepper/base/explicit_error_stepper_fsal_base.hpp","stepper/base/explicit_stepper_base.hpp","stepper/controlled_runge_kutta.hpp","stepper/adams_bashforth.hpp","stepper/velocity_verlet.hpp","stepper/bulirsch_stoer.hpp","stepper/rosenbrock4.hpp"],
 [("first-call flag and reset","stepper/base/explicit_error_stepper_fsal_base.hpp")],
 state=[("first-call flag","whether the cached derivative is valid","stepper/base/explicit_error_stepper_fsal_base.hpp")],
 observe=["step results"])

prop("C18", "Copies of steppers are complete and independent",
 "Copy-constructing or assigning any stepper at any point of its history gives a stepper that behaves from then on exactly as the original would, for every continuation. Stepping, resetting, resizing or destroying either one never changes the behaviour of the other or touches freed memory.",
 ["histories","configurations"],
 "All steppers, all points of a history at which to copy or assign, all interleavings of operations on original and copy up to the depth bound, including destruction of the original.",
 "The copying test checks that the internal temporaries are copied once for a few steppers, never that behaviour is preserved or independent.",
 ["stepper/adams_bashforth.hpp","stepper/adams_moulton.hpp","stepper/adams_bashforth_moulton.hpp","stepper/dense_output_runge_kutta.hpp","stepper/rosenbrock4_dense_output.hpp","stepper/bulirsch_stoer_dense_out.hpp","stepper/controlled_runge_kutta.hpp","util/state_wrapper.hpp","external/gsl/gsl_wrapper.hpp"],
 [("copy constructors and assignment","stepper/dense_output_runge_kutta.hpp"),("state wrappers","util/state_wrapper.hpp")],
 observe=["step results of original and copy"])

prop("C19", "State size changes are handled as the chosen resizing policy promises",
 "With the always-resizing policy, or after a manual size adjustment, every stepper gives for a state of any new size the result a new stepper would give, after any history of steps at other sizes. With the initial policy the size is taken from the first state used, and with the never policy from the manual adjustment alone; within its policy no stepper reads or writes outside its own storage.",
 ["histories","configurations"],
 "All sequences of growing and shrinking state sizes (including the smallest) up to the depth bound, interleaved with steps, manual adjustments and resets, for every stepper and resizing policy.",
 "The resizing tests count allocations for a few steppers with one size change.",
 ["util/resizer.hpp","util/resize.hpp","util/same_size.hpp","util/is_resizeable.hpp","stepper/base/explicit_stepper_base.hpp","stepper/controlled_runge_kutta.hpp","stepper/dense_output_runge_kutta.hpp","stepper/rosenbrock4.hpp","stepper/bulirsch_stoer.hpp","stepper/adams_bashforth.hpp"],
 [("adjust size only when sizes differ","util/resizer.hpp"),("per-stepper resize functions","stepper/controlled_runge_kutta.hpp")],
 observe=["step results","memory errors"])

prop("C20", "Algebras apply an operation to every element once; operations compute their sums",
 "For every algebra, arity and container size (including empty where allowed) the element-wise loop applies the operation exactly once to every tuple of corresponding elements and touches nothing else; each linear-combination operation stores exactly the sum of its factors times its arguments in order; error norms and maxima are the mathematical ones over all elements.",
 ["inputs","configurations"],
 "All algebras, all arities 1..15 and sum lengths 1..14, all container shapes up to the size bound; by linearity unit vectors in each argument decide each sum for all inputs.",
 "Tests check a few arities with one size and all-equal data, so swapped or skipped arguments can go unnoticed.",
 ["algebra/range_algebra.hpp","algebra/array_algebra.hpp","algebra/fusion_algebra.hpp","algebra/vector_space_algebra.hpp","algebra/multi_array_algebra.hpp","algebra/detail/for_each.hpp","algebra/detail/norm_inf.hpp","algebra/default_operations.hpp","util/n_ary_helper.hpp","external/openmp/openmp_range_algebra.hpp","external/openmp/openmp_nested_algebra.hpp","external/mpi/mpi_nested_algebra.hpp","external/thrust/thrust_algebra.hpp","external/thrust/thrust_operations.hpp"],
 [("loops per arity","algebra/detail/for_each.hpp"),("scale_sum functors","algebra/default_operations.hpp")],
 observe=["elements after the loop","operation call log"])

prop("C21", "The result does not depend on the container that holds the state",
 "Integrating the same system from the same initial values gives the same observations whichever supported state type holds the values: dynamic vectors, deques, fixed-size arrays of either kind, linear-algebra vectors and matrices, multi-dimensional arrays, heterogeneous sequences, vector-space types, complex numbers, numbers with physical units or a bare scalar. This holds for every stepper that supports the type and for every integration function.",
 ["inputs","configurations"],
 "All supported (state type, stepper, integration function) combinations over a grid of problems.",
 "Tests check that combinations compile and one number comes out; results across state types are never compared.",
 ["algebra/algebra_dispatcher.hpp","algebra/operations_dispatcher.hpp","algebra/fusion_algebra_dispatcher.hpp","algebra/norm_result_type.hpp","util/copy.hpp","util/resize.hpp","util/ublas_wrapper.hpp","util/multi_array_adaption.hpp","util/unit_helper.hpp","external/eigen/eigen_algebra.hpp","external/eigen/eigen_resize.hpp","external/gsl/gsl_wrapper.hpp","external/thrust/thrust_resize.hpp"],
 [("algebra dispatch by state type","algebra/algebra_dispatcher.hpp"),("resize/copy/same-size adaptors","util/ublas_wrapper.hpp")],
 observe=["observed states"])

prop("C22", "Shared-memory parallel states give the sequential result on every schedule",
 "Stepping a state with the shared-memory parallel algebras gives, for every number of threads, every loop schedule and every interleaving of the threads' element operations, exactly the sequential result; reductions return the true norm. Splitting a container into a parallel state and joining it again restores it, every element belonging to exactly one part, for every container size and number of parts; copying and resizing parallel states works element for element.",
 ["schedules","inputs","configurations"],
 "All interleavings of the parallel loop's chunks and reduction merges for small sizes and thread counts, all sizes and part counts up to the bound.",
 "The OpenMP tests are compiled but run with whatever schedule the machine gives, for one size.",
 ["external/openmp/openmp_range_algebra.hpp","external/openmp/openmp_nested_algebra.hpp","external/openmp/openmp_state.hpp","util/split.hpp"],
 [("parallel for with runtime schedule","external/openmp/openmp_range_algebra.hpp"),("max reduction","external/openmp/openmp_range_algebra.hpp"),("split/unsplit","external/openmp/openmp_state.hpp")],
 observe=["states after each loop, split and join"])

prop("C23", "Distributed states agree on every rank for every message order",
 "For every number of ranks, container size and delivery order of messages: distributing a container over the ranks and collecting it again restores it, each element going to exactly one rank in order and part sizes differing by at most one; norms and size comparisons are computed over all ranks and agree on all of them; and controlled integration takes the same accept/reject decisions on all ranks, without deadlock and with the sequential result.",
 ["schedules","inputs","configurations"],
 "All rank counts and sizes up to the bound, all interleavings of rank progress and message delivery up to the bound, roots and collectives included.",
 "The MPI tests need a launcher and are not run here at all; when run they see one schedule.",
 ["external/mpi/mpi_state.hpp","external/mpi/mpi_vector_state.hpp","external/mpi/mpi_nested_algebra.hpp","util/split_adaptor.hpp","util/split.hpp"],
 [("balanced split offsets","util/split_adaptor.hpp"),("all_reduce of norms and sizes","external/mpi/mpi_nested_algebra.hpp"),("scatter/gather","external/mpi/mpi_vector_state.hpp")],
 observe=["pieces per rank","norms per rank","accept/reject per rank"])

prop("C24", "By-reference arguments are used in place, by-value arguments are copied",
 "Systems, observers and steppers passed to steppers, integrators, iterators and ranges by reference wrapper are used in place: every call reaches the caller's object and its state after the call reflects the whole run. Passed by value they are left untouched, and both ways give the same solution: bit for bit wherever a stepper's result depends on its arguments only, within the tolerance where an adaptive stepper passed by reference carries its step-size or order memory from one interval to the next.",
 ["inputs","configurations"],
 "All integration functions, iterator factories, steppers and generation wrappers, with each argument by value, by either reference wrapper, as function pointer or callable object.",
 "Tests check a few combinations for compilation.",
 ["util/unwrap_reference.hpp","util/bind.hpp","integrate/integrate_const.hpp","integrate/integrate_adaptive.hpp","integrate/integrate_n_steps.hpp","integrate/integrate_times.hpp","integrate/check_adapter.hpp","iterator/detail/ode_iterator_base.hpp","stepper/base/explicit_stepper_base.hpp"],
 [("unwrapping of reference wrappers","util/unwrap_reference.hpp")],
 observe=["call counters inside the passed objects","solution"])

prop("C25", "Generated steppers honour tolerances, limits and the stepper they wrap",
 "The generation functions return controlled and dense-output steppers that behave exactly like the directly constructed ones: the absolute and relative tolerances arrive in the right roles, a maximal step size if given is enforced, and the passed stepper's own configuration is kept. Tightening a tolerance never loosens what is accepted.",
 ["inputs","configurations"],
 "All generation-function overloads and stepper families, over a grid of tolerances, maximal steps, problems and directions.",
 "The generation test checks types only.",
 ["stepper/generation/make_controlled.hpp","stepper/generation/make_dense_output.hpp","stepper/generation/generation_controlled_runge_kutta.hpp","stepper/generation/generation_dense_output_runge_kutta.hpp","stepper/generation/generation_rosenbrock4.hpp","stepper/generation/generation_runge_kutta_dopri5.hpp","stepper/generation/generation_runge_kutta_cash_karp54.hpp","stepper/generation/generation_runge_kutta_fehlberg78.hpp"],
 [("factory overloads","stepper/generation/generation_controlled_runge_kutta.hpp")],
 observe=["trial results of generated and directly built steppers"])

prop("C26", "Backward integration mirrors forward integration, and time shifts do not matter",
 "Integrating the time-reversed system from -t0 to -t1 with the negated step size produces, for every stepper and every integration function, exactly the mirror image of the forward run: the same states at the negated times, the same number of steps, the same accept/reject decisions. Shifting the start time of an autonomous system leaves states and step counts unchanged.",
 ["inputs","configurations"],
 "All steppers and integration functions over a grid of problems, intervals and step sizes; both directions and several exactly representable time shifts.",
 "Only a few tests integrate backwards, and each only checks its end value.",
 ["util/detail/less_with_sign.hpp","integrate/detail/integrate_const.hpp","integrate/detail/integrate_adaptive.hpp","integrate/detail/integrate_n_steps.hpp","integrate/detail/integrate_times.hpp","stepper/controlled_runge_kutta.hpp","stepper/bulirsch_stoer.hpp","stepper/bulirsch_stoer_dense_out.hpp","stepper/rosenbrock4_controller.hpp","stepper/controlled_adams_bashforth_moulton.hpp"],
 [("sign-aware comparisons and minima","util/detail/less_with_sign.hpp")],
 observe=["mirrored observation sequences"])

prop("C27", "The variable-step multistep stepper keeps a consistent history and order",
 "The variable-step, variable-order predictor-corrector stepper reproduces exactly every solution whose derivative is a polynomial of degree below its current order, for any sequence of accepted steps of different sizes, rejections, order changes, copies and resets. A rejected trial leaves the history unchanged, an order change moves the order by at most one and stays within the supported range, and a reset stepper behaves exactly like a new one.",
 ["inputs","histories","configurations"],
 "All supported maximal orders, all sequences of step sizes, accept/reject outcomes and order changes up to the depth bound.",
 "Tests check the coefficients at one point and one convergence run.",
 ["stepper/adaptive_adams_bashforth_moulton.hpp","stepper/controlled_adams_bashforth_moulton.hpp","stepper/detail/adaptive_adams_coefficients.hpp","stepper/detail/pid_step_adjuster.hpp","stepper/detail/pid_step_adjuster_coefficients.hpp"],
 [("divided differences with variable steps","stepper/detail/adaptive_adams_coefficients.hpp"),("order adjuster","stepper/controlled_adams_bashforth_moulton.hpp")],
 state=[("divided differences","history of the solution on the variable grid","stepper/detail/adaptive_adams_coefficients.hpp")],
 observe=["step results","order"])

prop("C28", "Short forms and default settings do what their long forms say",
 "The integrate function without a stepper gives, for every state type, interval, direction and observer, exactly what adaptive integration with the documented default stepper and tolerances gives. Integration functions without an observer change the state and return exactly as with one. Default-constructed controlled and dense-output steppers behave as with the documented default tolerances and no maximal step size, and the default checkers allow exactly the documented number of steps. An observer collection forwards every call to all its observers in order.",
 ["inputs","configurations"],
 "All short forms and defaults over a grid of problems, state types, start times, intervals, step sizes of either direction and observers.",
 "Tests call each short form once and compare the end value with a loose tolerance, so that a different default or a different number of steps passes.",
 ["integrate/integrate.hpp","integrate/integrate_adaptive.hpp","integrate/integrate_const.hpp","integrate/integrate_n_steps.hpp","integrate/integrate_times.hpp","integrate/null_observer.hpp","integrate/observer_collection.hpp","integrate/max_step_checker.hpp","stepper/controlled_runge_kutta.hpp","stepper/rosenbrock4_controller.hpp","stepper/bulirsch_stoer.hpp","stepper/bulirsch_stoer_dense_out.hpp"],
 [("choice of the default stepper","integrate/integrate.hpp"),("default tolerances","stepper/controlled_runge_kutta.hpp"),("default limits","integrate/max_step_checker.hpp")],
 observe=["end state","number of steps","observer calls","trial results"])

prop("C29", "A stepper given a part of a container advances exactly that part",
 "Every stepper and integration function that accepts a range (a part of a container, contiguous or strided, constant or temporary) advances exactly the elements of this range, with the same results as for a separate container holding these elements, and neither changes nor uses any other element of the container. This holds for every position and length of the range, and when the same stepper is used for several parts in turn.",
 ["inputs","histories","configurations"],
 "All positions and lengths of the parts in small containers, all stepper kinds, call variants and container kinds, all sequences of parts up to the depth bound.",
 "Tests and examples step one fixed range with a few steppers; whether a neighbouring element is touched is checked nowhere.",
 ["algebra/range_algebra.hpp","stepper/base/explicit_stepper_base.hpp","stepper/base/explicit_error_stepper_base.hpp","stepper/base/explicit_error_stepper_fsal_base.hpp","stepper/base/symplectic_rkn_stepper_base.hpp","stepper/controlled_runge_kutta.hpp","stepper/dense_output_runge_kutta.hpp","stepper/bulirsch_stoer.hpp","stepper/bulirsch_stoer_dense_out.hpp","util/copy.hpp","integrate/integrate_adaptive.hpp"],
 [("element loops over ranges","algebra/range_algebra.hpp"),("copying into and out of a range","util/copy.hpp")],
 observe=["elements in the range","elements outside the range"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        for fn in p["anchors"]["files"]:
            assert os.path.exists("/repo/" + fn), fn
        for m in p["anchors"]["mechanism"]:
            assert os.path.exists("/repo/" + m["where"]), m
        f.write(json.dumps(p) + "\n")
print(len(P))
