import json
def p(id,title,statement,over,qt,why,files,mech,obs,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a}
T="src/XAD/Tape.hpp"; TC="src/Tape.cpp"; L="src/XAD/Literals.hpp"
P=[
p("C01","Reverse sweep yields the seed-weighted gradient of every recorded program",
 "For every program recorded on a tape and every choice of output seeds, computing adjoints sets the derivative of each independent variable to the sum over outputs of seed times partial derivative. This holds however variables are overwritten, aliased on both sides of an assignment, updated in place, created and destroyed, seeded more than once or seeded before further recording, and regardless of how many operations the recording holds.",
 ["programs","inputs"],"all straight-line recordings over any number of variables (fan-out, reassignment, self-reference, dead temporaries, constants), all seeds, all recording lengths",
 "Tests record a few dozen fixed programs with one seed; sharing of derivative storage, overwrite order and storage-block boundaries only go wrong for particular histories.",
 [TC,T,L,"src/XAD/Expression.hpp","src/XAD/ChunkContainer.hpp"],
 [("reverse interpretation of statements",TC+":computeAdjointsToImpl"),("statement/operation push",T+":pushRhs/pushLhs/pushAll"),("expression recording",L+":AReal::operator=")],
 ["derivative() of inputs after Tape::computeAdjoints"],
 [("recording","ordered statements with multipliers and operand slots",T+":statement_/multiplier_/slot_"),("derivatives","adjoint value per slot",T+":derivatives_")]),
p("C02","Every expression has its mathematical value and chain-rule derivatives",
 "For every expression built from the overloaded operators, math functions, literals and passive scalars, the active value equals the value of the same computation on plain numbers, and forward mode and reverse mode both deliver the partial derivatives given by the chain rule. This is independent of how the expression is split over statements, whether sub-expressions are stored with auto, how often an operand occurs, and whether it enters by construction, assignment, compound assignment or increment.",
 ["programs","inputs"],"all expression trees over the supported operators and operand kinds (active leaf, sub-expression, float/double/int scalar on either side), all operand values in the domain",
 "Tests check one or two hand-written compositions per operator; overload selection and multiplier propagation depend on the shape of the whole tree and on operand kinds.",
 ["src/XAD/UnaryExpr.hpp","src/XAD/BinaryExpr.hpp","src/XAD/Expression.hpp","src/XAD/BinaryDerivativeImpl.hpp","src/XAD/UnaryFunctors.hpp","src/XAD/BinaryFunctors.hpp","src/XAD/UnaryOperators.hpp","src/XAD/BinaryOperators.hpp",L],
 [("expression templates","src/XAD/UnaryExpr.hpp, src/XAD/BinaryExpr.hpp"),("operator overloads","src/XAD/UnaryOperatorMacros.hpp, src/XAD/BinaryOperatorMacros.hpp"),("compound assignment",L+":ADTypeBase")],
 ["value() and derivative() of results for AReal and FReal"]),
p("C03","Each elementary function applies its analytic derivative over its whole domain",
 "For every supported math function, at every point of its domain where it is differentiable, value and partial derivatives equal the analytic ones to floating-point accuracy, including negative and large arguments, each operand of binary functions, and arguments mixing active values with float, double or integer scalars. At kinks the documented convention holds (0 for abs at zero, one half to each side for max/min ties, 0 for rounding functions).",
 ["inputs"],"all functions and overloads, all arguments in the domain and all branches of piecewise rules (signs, quotients, exponents, thresholds)",
 "Tests sample one or two benign points per function; a wrong branch, sign or precision-losing rule shows only for negative quotients, large exponents, other branches or a particular overload.",
 ["src/XAD/UnaryMathFunctors.hpp","src/XAD/BinaryMathFunctors.hpp","src/XAD/UnaryOperators.hpp","src/XAD/BinaryOperators.hpp","src/XAD/MathFunctions.hpp"],
 [("unary rules","src/XAD/UnaryMathFunctors.hpp"),("binary rules","src/XAD/BinaryMathFunctors.hpp"),("overloads","src/XAD/UnaryOperators.hpp")],
 ["value() and derivative() of f(x), f(x,y), f(x,c), f(c,y)"]),
p("C04","Nested active types deliver exact higher-order derivatives",
 "For every expression, nesting active types (forward over adjoint, adjoint over forward, adjoint over adjoint, forward over forward, and third-order nestings) yields the same value and first derivatives as the first-order types, and second and third derivatives equal to those of the mathematical function. Mixed derivatives agree whichever nesting computes them.",
 ["programs","inputs"],"all expressions over the smooth functions, all supported nestings, all directions and seeds",
 "Tests check a handful of functions for second order at fixed points; derivative rules themselves are re-differentiated, so every rule and overload must itself be recorded correctly.",
 [L,"src/XAD/Interface.hpp","src/XAD/UnaryMathFunctors.hpp","src/XAD/BinaryMathFunctors.hpp",TC],
 [("mode interfaces","src/XAD/Interface.hpp"),("rules generic in Scalar","src/XAD/UnaryMathFunctors.hpp, src/XAD/BinaryMathFunctors.hpp"),("explicit instantiations",TC)],
 ["derivative(derivative(x)), derivative(value(x)) for nested types"]),
p("C05","Live registered variables never share a derivative slot",
 "At any time two registered variables that are alive own different slots, whatever the order in which variables are registered, copied, moved, swapped and destroyed, in both slot-allocation configurations. Freed slots may be reused, but reuse never changes the derivative of any other variable, and the reported number of variables equals the number of live registered ones.",
 ["histories","configurations"],"all interleavings of register/copy/move/swap/destroy over any number of variables, with slot reuse on and off, across recordings and nested recordings",
 "Tests exercise a few allocation orders; range splitting, joining, exhaustion and iterator bookkeeping depend on the exact free order.",
 [T,TC,"src/XAD/ReusableRange.hpp",L],
 [("slot allocation",T+":registerVariable, "+TC+":registerVariableReuseSlots"),("slot release",TC+":unregisterVariableReuseSlots"),("range arithmetic","src/XAD/ReusableRange.hpp")],
 ["getSlot() of live variables","Tape::getNumVariables","adjoints after sweep"],
 [("free ranges","sorted list of reusable slot ranges",T+":reusable_ranges_")]),
p("C06","Partial rollback and reset act exactly up to the given position",
 "Computing adjoints to a position propagates exactly the operations recorded after it, so resetting to that position and continuing to the start gives the same result as one full sweep. Resetting to a position discards exactly what was recorded after it, clearing derivatives after a position leaves derivatives of variables registered before it unchanged and clears the later ones, and clearing all derivatives followed by new seeds makes the same recording reusable any number of times.",
 ["histories","programs"],"all recordings, all positions (including start and end), all interleavings of sweeps, resets, clears, seeds and further recording",
 "Tests use two fixed Monte-Carlo style sequences; which slots and statements survive depends on the order of registration and the position.",
 [TC,T],
 [("partial sweep",TC+":computeAdjointsTo"),("reset",TC+":resetTo"),("clear after position",TC+":clearDerivativesAfter"),("lazy clear",TC+":clearDerivatives/initDerivatives")],
 ["derivative() after computeAdjointsTo/resetTo/clearDerivativesAfter/clearDerivatives"]),
p("C07","A new recording gives the same results as one on a fresh tape",
 "After starting a new recording, or clearing the tape once its variables are gone, values and derivatives obtained from the next recording are identical to those of the same program on a newly constructed tape, whatever was recorded, seeded, rolled back or left unfinished before. Registered variables that stay alive across a new recording act as independents with derivative zero until seeded or reached by a sweep.",
 ["histories"],"all sequences of recordings on one tape with live variables carried over, unfinished sweeps, leftover seeds, errors and checkpoints in between",
 "Tests reuse a tape once or twice; stale derivatives, stale checkpoints and stale allocation state only surface after particular predecessors.",
 [TC,T],
 [("new recording",TC+":newRecording"),("clear",TC+":clearAll"),("lazy initialisation",TC+":initDerivatives")],
 ["derivative() after a later recording"]),
p("C08","Checkpoint callbacks and nested recordings equal plain recording",
 "If parts of a computation are replaced by checkpoints whose callbacks compute the adjoint of that part, with or without nested recordings, a sweep gives the same derivatives as recording everything. Each callback crossed by the sweep is invoked exactly once, in reverse order of insertion and after everything recorded later has been propagated; nested recordings neither see nor disturb pending adjoints and recordings outside.",
 ["programs","histories"],"all placements and numbers of checkpoints (none, adjacent, first, last, inside nested recordings), all variables created or freed around and inside callbacks, full and partial sweeps",
 "Tests run one evenly spaced loop; collisions between slots used in callbacks and pending adjoints need a particular lifetime pattern.",
 [TC,T,"src/XAD/CheckpointCallback.hpp"],
 [("checkpoint dispatch",TC+":computeAdjointsTo"),("nested recording",TC+":newNestedRecording/endNestedRecording/foldSubrecording"),("adjoint access",TC+":getAndResetOutputAdjoint/incrementAdjoint")],
 ["derivative() of inputs, callback invocation log"]),
p("C09","At most one tape is active per thread and threads are isolated",
 "Each thread has at most one active tape per active type: activating while one is active fails and changes nothing, deactivating affects only the tape it is called on, destroying an active tape deactivates it. Recording always goes to the calling thread's active tape only, so threads running their own tapes under any interleaving get the results of running alone.",
 ["schedules","histories"],"all interleavings of construct/activate/deactivate/destroy/record/sweep on several tapes by several threads",
 "Tests run single-threaded apart from one smoke test; a shared static or a missed deactivation shows only under particular interleavings.",
 [T,TC,"src/XAD/Macros.hpp"],
 [("thread-local active pointer",TC+":active_tape_"),("activation guard",T+":setActive/activate/deactivate")],
 ["Tape::getActive, isActive, exceptions, results per thread"]),
p("C10","Moving a tape transfers recording, activation and owned callbacks intact",
 "After move construction or move assignment, in any activation state, the target holds exactly the recording, derivatives, allocation state, checkpoints and owned callbacks of the source, is active iff the source was, and continues to work as if it had never been moved. The source can be destroyed or assigned to, what the target held before is released, and every owned callback is destroyed exactly once.",
 ["histories","configurations"],"all points in a recording/sweep history at which a tape is moved, any activation state of source and target, chains of moves, both slot configurations, nested scalar types",
 "Tests move an inactive tape in one state; active tapes, free ranges, ownership and non-trivial scalars are not covered.",
 [TC,T,"src/XAD/ChunkContainer.hpp"],
 [("move operations",TC+":Tape(Tape&&), operator=(Tape&&)"),("owned callbacks",TC+":~Tape, pushCallback/popCallback"),("container move","src/XAD/ChunkContainer.hpp")],
 ["isActive, derivatives, slots, callback destructor counts"]),
p("C11","Rejected calls throw the documented exception and change nothing",
 "Calls outside their contract - seeding-free sweeps, derivative or adjoint access by an unknown slot, popping or reading an empty callback list, activating a second tape, asking a derivative without active tape - throw the documented exception. After catching it, every later result is the same as if the call had not been made.",
 ["fault_sequences","histories"],"every rejected call at every point of every recording history",
 "Tests assert that the throw happens once in a trivial state; they do not continue the history afterwards.",
 [TC,T,L,"src/XAD/Exceptions.hpp"],
 [("guards",TC+":computeAdjoints, derivative, incrementAdjoint, getAndResetOutputAdjoint, getLastCallback, popCallback"),("no-tape guard",L+":AReal::derivative")],
 ["exception type, all later observations"]),
p("C12","Chunked storage behaves as a plain sequence across every block boundary",
 "The tape's block storage behaves as an ordinary growable sequence: after any operations its size and every element are those of the sequence, elements are constructed and destroyed exactly once, and moved-from containers are safe to destroy or to assign to. Consequently tape results do not depend on where recorded operations fall relative to block boundaries.",
 ["histories","inputs"],"all sequences of append/extend/resize/assign/clear/iterate/move with sizes crossing any number of block boundaries, trivial and non-trivial element types",
 "Blocks hold eight million elements, so tape tests never cross one, and container tests check few sizes; boundary arithmetic fails at exact multiples only.",
 ["src/XAD/ChunkContainer.hpp","src/XAD/TapeContainer.hpp",TC],
 [("chunk arithmetic","src/XAD/ChunkContainer.hpp"),("sweep across chunks",TC+":computeAdjointsToImpl")],
 ["size(), operator[], iteration, element lifetimes, adjoints of recordings crossing blocks"]),
p("C13","Active variables have value semantics and only active dependencies record",
 "Copying, moving, swapping and assigning active variables, alone or in containers, preserves values and gives each variable its own derivative: seeding or overwriting one never affects another beyond its recorded dependence. Computations in which no operand is registered record nothing and stay unregistered, assigning a passive value drops the dependence, and reading the derivative of an unregistered variable through a const access gives zero.",
 ["programs","histories"],"all sequences of copy/move/swap/assign/compound updates over registered and unregistered variables and containers, including self-assignment and self-move",
 "Tests check single operations; slot transfer on move and assignment interacts with destruction order and later recording.",
 [L,T],
 [("copy/move/assign",L+":AReal"),("activity check",L+":shouldRecord"),("registration",T+":registerInput/registerOutput")],
 ["value(), derivative(), shouldRecord(), recording size"]),
p("C14","computeJacobian returns the full Jacobian in forward and adjoint mode",
 "For every vector function with any number of inputs and outputs, every overload of computeJacobian (forward or adjoint, with or without a supplied or active tape, returning a matrix or filling iterators) yields the matrix of partial derivatives of output i by input j, and both modes agree. Mismatched dimensions are rejected, and the caller's tape and input values are left usable and unchanged.",
 ["programs","inputs","histories"],"all shapes, all functions built from the supported operations (including ones ignoring inputs or repeating outputs), all tape situations at the call, repeated calls",
 "Tests use a few fixed small functions and never interleave the calls with other recordings.",
 ["src/XAD/Jacobian.hpp"],
 [("adjoint rows","src/XAD/Jacobian.hpp"),("forward columns","src/XAD/Jacobian.hpp")],
 ["returned matrix / iterator target, exceptions, active tape afterwards"]),
p("C15","computeHessian returns the exact symmetric Hessian in both second-order modes",
 "For every scalar function of any number of inputs, every overload of computeHessian (forward-over-adjoint or forward-over-forward, with or without a supplied or active tape, matrix or iterators) yields the matrix of second partial derivatives, symmetric and equal across overloads. Mismatched dimensions are rejected, and the caller's tape and input values are left usable and unchanged.",
 ["programs","inputs","histories"],"all input dimensions, all functions (linear, separable, mixed terms), all tape situations at the call, repeated calls",
 "Tests use a few fixed functions; stale tangent directions or rows appear only for particular cross terms, sizes or call sequences.",
 ["src/XAD/Hessian.hpp","src/XAD/Jacobian.hpp"],
 [("fwd-adj rows","src/XAD/Hessian.hpp"),("fwd-fwd entries","src/XAD/Hessian.hpp")],
 ["returned matrix / iterator target, exceptions, active tape afterwards"]),
p("C16","Complex arithmetic on active types is right for all operand kinds and aliasing",
 "For complex numbers over active types, construction, assignment, +, -, *, /, unary signs, compound assignment, comparison, real/imag access and conj/norm/abs/arg/proj/polar give the value and the real-valued partial derivatives of the mathematical operation. This holds for every combination of complex and real, active and passive operands, and when operands alias each other or their own parts.",
 ["programs","inputs"],"all operand kind combinations, all operand values, aliasing of target and operands, forward and reverse scalar types and nestings",
 "Tests check each overload at one point with distinct operands.",
 ["src/XAD/Complex.hpp","src/XAD/Tape.hpp"],
 [("complex specialisation","src/XAD/Complex.hpp"),("complex registration",T+":registerInput(std::complex)")],
 ["real/imag values and derivatives with respect to all real parts"]),
p("C17","Complex functions of active types have the analytic value and derivatives",
 "For complex arguments over active types exp, log, log10, sqrt, pow and all trigonometric, hyperbolic and inverse functions return the same value as for plain complex numbers on the principal branch, and partial derivatives with respect to real and imaginary parts that satisfy the analytic rule. This holds in every quadrant away from branch cuts and for every mixed overload of pow and polar.",
 ["inputs","programs"],"all functions and overloads, arguments in every quadrant and on either axis away from branch cuts and poles",
 "Tests check one or two points, usually in the first quadrant.",
 ["src/XAD/Complex.hpp"],
 [("complex functions","src/XAD/Complex.hpp")],
 ["real/imag values and derivatives"]),
p("C18","Active types behave as their value in comparisons, classification and conversion",
 "Comparisons, floating-point classification, rounding to integers, conversions, stream output and input, hashing, numeric limits and sign queries on active values and expressions give exactly what the same call gives on the underlying value, for every combination of operand kinds, including NaN, infinities, signed zeros and denormals. They record nothing.",
 ["inputs","programs"],"all operators and queries, all operand kind combinations, all classes of floating-point values",
 "Tests compare a few ordinary numbers per overload; NaN and signed-zero semantics and rarely used overloads are not crossed.",
 ["src/XAD/BinaryOperators.hpp","src/XAD/UnaryOperators.hpp","src/XAD/StdCompatibility.hpp","src/XAD/Expression.hpp",L],
 [("comparison macros","src/XAD/BinaryOperators.hpp"),("classification macros","src/XAD/UnaryOperators.hpp"),("std specialisations","src/XAD/StdCompatibility.hpp"),("conversions","src/XAD/Expression.hpp")],
 ["returned booleans/integers/text, recording size"]),
]
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), [ (x["id"],x["statement"].count(". ")+1) for x in P])
