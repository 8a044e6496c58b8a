"""Which harnesses decide which property, and within which bounds."""
O1 = ["-O1"]
ASAN = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]

def integ(p, it=True):
    b = [dict(name="loop", src=["integ.cpp"], defs=[p], flags=O1)]
    if it: b.append(dict(name="iter", src=["integ.cpp"], defs=[p, "ITER=1"], flags=O1))
    return b

STATELESS = "stateless model checking of the real code: exhaustive deviation-bounded choice-tree enumeration"
ENV = "Integrators are closed with environment steppers whose accept/reject/step-size answers are nondeterministic choices; every answer sequence with up to the deviation bound is executed on the real integration code. Trusts the environment steppers' conformance to the stepper concepts and fair growth of tiny steps."

def zoo(p, flags, extra=(), tag="", groups=range(1, 12)):
    return [dict(name=f"{tag}g{g}", src=["zoo.cpp"], defs=[p, f"GROUP={g}", *extra], flags=flags) for g in groups]
ZASAN = ASAN + ["-DBOOST_UBLAS_NDEBUG"]
ZOO = "Every stepper of the library behind a uniform operation interface; all operation sequences up to the depth bound run on the real stepper next to a reference execution (another call variant, a fresh stepper or an undisturbed twin) and everything observable is compared. "

def order(p, groups):
    return [dict(name=f"g{g}{m.lower()}", src=["order.cpp"], defs=[p, f"GROUP={g}"] + ([m] if m else []), flags=O1) for g in groups for m in ("", "MP")]
TREES = "The inputs are enumerated exhaustively: all rooted trees (with every subset of the leaves replaced by explicit time factors) up to the order, whose elementary differential systems decide the order conditions completely (Butcher), on the real stepper, for double, float, long double, complex and 50-digit arithmetic. "

PROPS = {
 "C01": dict(technique=STATELESS, note=ENV, builds=integ("P01"), body={"*": dict(shards=8, quick=dict(bound=2, shards=8), thorough=dict(bound=3, shards=16)), "const_odd": dict(shards=4, quick=dict(bound=0, shards=4), thorough=dict(bound=1, shards=16))}),
 "C02": dict(technique=STATELESS, note=ENV, builds=integ("P02"), body={"*": dict(shards=8, quick=dict(bound=2, shards=8), thorough=dict(bound=3, shards=16)), "nsteps_odd": dict(shards=4, quick=dict(bound=0, shards=4), thorough=dict(bound=1, shards=16))}),
 "C03": dict(technique=STATELESS, note=ENV, builds=integ("P03"), body={"*": dict(shards=8, quick=dict(bound=2, shards=8), thorough=dict(bound=3, shards=16)), "adaptive_odd": dict(shards=4, quick=dict(bound=0, shards=4), thorough=dict(bound=1, shards=16))}),
 "C04": dict(technique=STATELESS, note=ENV, builds=integ("P04"), body={"*": dict(shards=8, quick=dict(bound=1, shards=8), thorough=dict(bound=2, shards=16)), "times_odd": dict(shards=4, quick=dict(bound=0, shards=4), thorough=dict(bound=0, shards=16))}),
 "C05": dict(technique=STATELESS, note=ENV + " The limited run replays the decisions of an unlimited twin run.", builds=integ("P05", False), body={"*": dict(shards=8, quick=dict(bound=2, shards=8), thorough=dict(bound=3, shards=16))}),
 "C06": dict(technique=STATELESS, note=ENV + " Iterators are compared with the property's own prescription, with the integration function fed the same answers, and with real steppers against the integration functions.", builds=[dict(name="it", src=["iters.cpp"], defs=["P06"], flags=O1), dict(name="asan", src=["iters.cpp"], defs=["P06", "SANITIZED"], flags=ASAN)], body={"*": dict(shards=1, quick=dict(bound=1, shards=1), thorough=dict(bound=2, shards=4)), "env": dict(shards=16, quick=dict(bound=1, shards=8), thorough=dict(bound=2, shards=16)), "env_asan": dict(shards=8, quick=dict(bound=0, shards=6), thorough=dict(bound=1, shards=16))}),
 "C07": dict(technique=STATELESS, note="The error estimate of every trial is a choice of the explorer (environment error steppers behind the real controller, value types float, double, long double), and the library's error steppers are driven through all sequences of step sizes next to a twin that never makes the rejected trials.", builds=[dict(name="ctrl", src=["ctrl.cpp"], defs=["P07"], flags=O1)], body={"*": dict(shards=2, quick=dict(bound=0, shards=2), thorough=dict(bound=0, shards=16))}),
 "C08": dict(technique=STATELESS, note="As C07; accept/reject decisions and proposed step sizes are compared with the documented law evaluated in extended precision.", builds=[dict(name="ctrl", src=["ctrl.cpp"], defs=["P08"], flags=O1)], body={"*": dict(shards=2, quick=dict(bound=0, shards=2), thorough=dict(bound=0, shards=16))}),
 "C09": dict(technique=STATELESS, note="Dense-output wrappers closed with environment steppers (accept/reject and step-size answers are choices) whose states name their time and trajectory, the library's dense steppers through all histories of initialise/step/query/copy next to a never-queried twin with the exact flow as oracle, and all rooted trees at interior points for the order of the continuous extension. Accuracy of the extrapolation stepper's interpolation is checked for intervals up to 0.75 only.", builds=[dict(name="dense", src=["dense.cpp"], defs=["P09"], flags=O1)], body={"*": dict(shards=2, quick=dict(bound=0, shards=2), thorough=dict(bound=0, shards=8)), "env.*": dict(shards=8, quick=dict(bound=2, shards=8), thorough=dict(bound=3, shards=16))}),
 "C10": dict(technique=STATELESS, note=TREES + "The generic Runge-Kutta machinery is also run on general tableaux of 1 to 13 stages against a plain evaluation of the tableau.", builds=order("P10", (1, 2, 3, 4)) + [dict(name="gen", src=["order.cpp"], defs=["P10G"], flags=O1)], body={"*": dict(shards=1, quick=dict(bound=0, shards=2), thorough=dict(bound=0, shards=8)), "*.sharp": dict(shards=1, quick=dict(bound=0, shards=1), thorough=dict(bound=0, shards=1))}),
 "C11": dict(technique=STATELESS, note=TREES + "The estimates are also compared with those of the published embedded pairs.", builds=order("P11", (2, 3, 4)), body={"*": dict(shards=1, quick=dict(bound=0, shards=2), thorough=dict(bound=0, shards=8)), "*.sharp": dict(shards=1, quick=dict(bound=0, shards=1), thorough=dict(bound=0, shards=1))}),
 "C12": dict(technique=STATELESS, note="All histories of steps, resets, re-initialisations, copies and step-size changes up to the deviation bound on the real multistep steppers of 1 to 8 steps (double, long double, 50 digits), with the exact polynomial solutions (quadrature, coupled chains and products) as oracle after every operation.", builds=[dict(name=v, src=["multi.cpp"], defs=["P12", f"VT={v}"], flags=O1) for v in ("double", "ld", "mp50")], body={"*": dict(shards=1, quick=dict(bound=1, shards=1), thorough=dict(bound=2, shards=8))}),
 "C13": dict(technique=STATELESS, note="The right-hand side (stiffness) of every trial is a choice, so all short histories of the order and step-size memory occur; the real steppers run next to an independent long-double extrapolation table: an accepted state must be a table entry whose own error estimate meets the tolerance. Complete integrations over a grid of problems, tolerances, first steps and directions; reset/re-initialised steppers bit by bit against new ones.", builds=[dict(name="bs", src=["bs.cpp"], flags=O1)], body={"*": dict(shards=1, quick=dict(bound=1, shards=4), thorough=dict(bound=2, shards=16))}),
 "C14": dict(technique=STATELESS, note="Symplecticity: every call variant on nonlinear Hamiltonians, the Jacobian of the real step obtained by running it on dual numbers. Order: all two-coloured rooted trees up to the order, general and Nystroem form, every call variant, float/double/long double.", builds=[dict(name="symp", src=["symp.cpp"], defs=["P14"], flags=O1)], body={"*": dict(shards=1, quick=dict(bound=0, shards=1), thorough=dict(bound=0, shards=2))}),
 "C15": dict(technique=STATELESS, note=TREES + "For rosenbrock4 with the Jacobian and time derivative of the tree systems (step, estimate, continuous extension), all integer matrices/nonlinear models of a grid against a long-double evaluation of the published method, and stability on a grid of the left half plane; for implicit_euler the residual of the implicit equation on every model of the grid for which an independent simulation of the simplified Newton iteration contracts.", builds=[dict(name="impl", src=["impl.cpp"], defs=["P15"], flags=O1)], body={"*": dict(shards=1, quick=dict(bound=0, shards=1), thorough=dict(bound=0, shards=2))}),
 "C16": dict(technique=STATELESS, note=ZOO + "Variants are compared up to rounding.", builds=zoo("P16", O1), body={"*": dict(shards=1, quick=dict(bound=0, shards=1), thorough=dict(bound=0, shards=8))}),
 "C17": dict(technique=STATELESS, note=ZOO + "Compared bit by bit; steppers without a reset are exempt from the history requirement.", builds=zoo("P17", O1), body={"*": dict(shards=1, quick=dict(bound=0, shards=1), thorough=dict(bound=0, shards=8))}),
 "C18": dict(technique=STATELESS, note=ZOO + "Compared bit by bit, under AddressSanitizer, with an algebra object that notices use after its death.", builds=zoo("P18", ZASAN), body={"*": dict(shards=1, quick=dict(bound=0, shards=2), thorough=dict(bound=0, shards=8))}),
 "C19": dict(technique=STATELESS, note=ZOO + "Compared bit by bit, under AddressSanitizer and UndefinedBehaviorSanitizer, for the three resizing policies; and all sequences of shapes of states with more than one extent (uBLAS and Eigen matrices, multi_array with shifted index bases, lists), where the system also insists that what it is given to fill has the shape of the state.", builds=[b for i, r in enumerate(("initially", "always", "never")) for b in zoo("P19", ZASAN, (f"POLICY={i}", f"RESIZER=ode::{r}_resizer"), r)] + [dict(name=f"shape{c}p{p}", src=["reshape.cpp"], defs=[f"CONT={c}", f"POLICY={p}"], flags=(["-O0", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"] if p == 0 else ["-O0"]) + ["-isystem", "/usr/include/eigen3"]) for p, cs in ((0, (1, 5, 7, 11)), (1, (1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12)), (2, (1, 5, 7))) for c in cs], body={"*": dict(shards=1, quick=dict(bound=0, shards=1), thorough=dict(bound=0, shards=8))}),
 "C20": dict(technique=STATELESS, note="All combinations of algebra, arity, container kind, size, aliasing pattern (operation records the addresses it is given); all sums on basis vectors with factor types of mixed width; all error norms and maxima on all vectors over a small value set, per value type.", builds=[dict(name=f"g{g}", src=["algebra.cpp"], defs=[f"GROUP={g}"], flags=O1) for g in range(1, 8)] + [dict(name=f"asan{g}", src=["algebra.cpp"], defs=[f"GROUP={g}"], flags=ASAN) for g in (1, 2, 5)], body={"*": dict(shards=1, quick=dict(bound=0, shards=1), thorough=dict(bound=0, shards=4))}),
 "C21": dict(technique=STATELESS, note="Every state container the library supports (fixed arrays, deque and list made resizable, uBLAS vectors and matrices in both orders, multi_array of several dimensions with shifted index bases, Boost.Fusion sequences, sequences and scalars of physical units, scalars and complex numbers, Eigen vectors, matrices and arrays, GSL vectors, multiprecision numbers, a user-defined vector space) next to std::vector (or a plain vector space): all stepper families that support the container, every way to integrate, a grid of problems, call variants, copies and step-size choices; the same arithmetic must come out, bit for bit (multiprecision with error control: up to the rounding of pow).", builds=[dict(name="t%d" % t, src=["states.cpp"], flags=["-O0", "-DTYPES=%d" % t, "-DBOOST_UBLAS_NDEBUG", "-isystem", "/usr/include/eigen3"], **(dict(libs=["-lgsl", "-lgslcblas"]) if t == 26 else {})) for t in list(range(1, 23)) + [24, 25, 26, 27]], body={"*": dict(shards=1, quick=dict(bound=1), thorough=dict(bound=2, shards=2))}),
 "C24": dict(technique=STATELESS, note="Every way to integrate (four functions, with and without checker, four kinds of ranges) and every call overload of the steppers, with the system as value, lvalue, boost::ref, std::ref, boost::cref, std::cref, function, function pointer, std::function, lambda, and for implicit and symplectic steppers as pair, reference to a pair, pair of references, reference to a pair of references; observers in eight ways, steppers in three, checkers in three, initialising steppers of the multistep methods, states of symplectic steppers as pairs of references. Every object counts the calls it receives; the totals, the observations and the caller's stepper afterwards are compared.", builds=[dict(name="byref%d" % g, src=["byref.cpp"], flags=["-O0", "-DGROUP=%d" % g, "-DBOOST_UBLAS_NDEBUG"]) for g in (1, 2, 3, 4, 5, 6, 7)], body={"*": dict(shards=1, quick=dict(bound=0), thorough=dict(bound=0))}),
 "C25": dict(technique=STATELESS, note="Every overload of make_controlled and make_dense_output for every supported stepper over a grid of absolute and relative tolerances, limits, first steps, problems and directions, trial by trial next to the directly built stepper (bit for bit), with the caller changing the step size; acceptance against an independent evaluation of the error norm from the plain stepper's own error estimate; a stricter tolerance never accepts what a looser one refuses; limits enforced; the passed stepper's settings and stateful algebra in use; user-registered steppers and time types other than the value type (float states with double times, physical units).", builds=[dict(name="gen", src=["gen.cpp"], flags=O1 + ["-DBOOST_UBLAS_NDEBUG"]), dict(name="genunits", src=["gen.cpp"], flags=O1 + ["-DUNITS"])], body={"*": dict(shards=1, quick=dict(bound=1, shards=2), thorough=dict(bound=2, shards=4))}),
 "C26": dict(technique=STATELESS, note="The real run next to its mirror image (system and times negated) and to runs shifted in time by dyadic amounts: all eight ways to integrate x 4 problems x grids of start, step and length (dyadic and not), for 20 plain, implicit, multistep and symplectic steppers and 10 controlled and dense ones, with and without a maximal step size; trial by trial with the caller changing the step size; and scripted controlled/dense steppers through every accept/grow/refuse/shrink script up to length 5 (6). Mirror images agree bit for bit (negation is exact in floating point), shifted fixed-step runs too. Runs whose problem escapes to infinity are cut at 60000 evaluations on both sides.", builds=[dict(name="mirror%d" % g, src=["mirror.cpp"], flags=O1 + ["-DGROUP=%d" % g, "-DBOOST_UBLAS_NDEBUG"]) for g in (1, 2, 3, 4)], body={"*": dict(shards=1, quick=dict(bound=1), thorough=dict(bound=2, shards=2))}),
 "C27": dict(technique=STATELESS, note="The real stepper next to an independent evaluation of the method from its definition (Lagrange interpolation on the actual grid, long double), over all sequences of step-size changes, call variants, resets, copies, and - controlled - all answers of environment step and order adjusters (accept, reject, grow, shrink, order up/down) up to the deviation bound, orders 1 to 8; the library's own adjusters after histories of up to 24 trials, reset compared with a new stepper.", builds=[dict(name="abm", src=["abm.cpp"], flags=O1)], body={"*": dict(shards=1, quick=dict(bound=2, shards=2), thorough=dict(bound=3, shards=8))}),
 "C28": dict(technique=STATELESS, note="Each short form next to its long form, bit for bit, in both implementations of the integration functions: integrate() in all its forms (deduced and explicit value type, with and without observer) for every kind of state next to integrate_adaptive with the documented stepper; every integration function with and without observer for every stepper category; default-constructed controlled and dense steppers next to ones given the documented tolerances, trial by trial; default checkers at their exact limit; observer collections of 0 to 4 observers. All combinations of problem, start, interval, step size and direction of the grids.", builds=[dict(name=f"short{g}{"i" * i}", src=["short.cpp"], flags=["-O0", "-DBOOST_UBLAS_NDEBUG", f"-DGROUP={g}", f"-DITER={i}"]) for g, i in ((1, 0), (2, 0), (3, 0), (1, 1), (2, 1))], body={"*": dict(shards=1, quick=dict(bound=1), thorough=dict(bound=1, shards=2))}),
 "C29": dict(technique=STATELESS, note="The real steppers and integration functions given sub-ranges (iterator pairs, iterator_range, sub_range, pointers, deque, strided and reversed views; mutable and constant) of vectors, deques and arrays, at every position and length of the grid and in every sequence of up to 5 (6) parts served by one stepper, next to the same stepper on containers of their own, bit for bit; sentinels around the range, AddressSanitizer and checked iterators.", builds=[dict(name=f"ranges{g}", src=["ranges.cpp"], flags=["-O0", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS", f"-DGROUP={g}"]) for g in range(1, 7)], body={"*": dict(shards=1, quick=dict(bound=1), thorough=dict(bound=2, shards=2))}),
 "C22": dict(technique="stateless model checking of the implementation under a controlled OpenMP runtime: exhaustive enumeration of thread schedules within bounds, with a race check on every access", note="The compiled code's OpenMP and memory-access hooks are served by our own runtime: team threads are coroutines, every order of chunk requests, atomics, critical sections and thread ends is enumerated (2 threads up to 3 iterations, 3 threads up to 1; beyond that three scheduling policies with bounded deviations), every loop schedule, and any two conflicting unsynchronised accesses are a violation. All loop arities, sizes, part shapes; all norms over a small value set; all split/join sizes and part counts; every stepper family bitwise against the sequential run.", builds=[dict(name="omp", src=["omp.cpp"], flags=["-O1", "-fopenmp", "-fsanitize=thread", "-D_GLIBCXX_ASSERTIONS"], nolinkflags=True, libs=["-Wl,--wrap=memmove,--wrap=memcpy,--wrap=memset"])], body={"*": dict(shards=1, quick=dict(bound=1, shards=2), thorough=dict(bound=2, shards=8)), "range.*": dict(shards=1, quick=dict(bound=0, shards=1), thorough=dict(bound=1, shards=2)), "state.*": dict(shards=1, quick=dict(bound=0, shards=1), thorough=dict(bound=1, shards=8)), "split.*": dict(shards=1, quick=dict(bound=1, shards=2), thorough=dict(bound=1, shards=8)), "selftest": dict(shards=1, quick=dict(bound=1, shards=1), thorough=dict(bound=2, shards=1))}),
 "C23": dict(technique="stateless model checking of the implementation on a controlled message-passing world: exhaustive enumeration of rank schedules within bounds", note="The real headers run on a stand-in for Boost.MPI in which ranks are coroutines, every operation is a scheduling point, collectives are matched across ranks and deadlocks, mismatches and lost messages are violations; buffered and synchronising modes. All rank counts, sizes and orders within the bounds; every stepper family on every rank bitwise against the sequential run, also with neighbour exchange and with two groups on communicators of their own.", builds=[dict(name="mpi", src=["mpi.cpp"], flags=["-O1", "-D_GLIBCXX_ASSERTIONS"], shim=["lib/mpishim"])], body={"*": dict(shards=1, quick=dict(bound=1, shards=1), thorough=dict(bound=2, shards=4)), "split.exhaustive": dict(shards=1, quick=dict(bound=0, shards=4), thorough=dict(bound=0, shards=8)), "norm": dict(shards=1, quick=dict(bound=0, shards=4), thorough=dict(bound=0, shards=8)), "stepper.*": dict(shards=1, quick=dict(bound=1, shards=1), thorough=dict(bound=1, shards=8)), "groups.*": dict(shards=1, quick=dict(bound=1, shards=1), thorough=dict(bound=2, shards=4)), "stepper.bulirsch_stoer_dense": dict(shards=1, quick=dict(bound=0, shards=1), thorough=dict(bound=1, shards=8))}),
}
