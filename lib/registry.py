"""property id -> check"""
import tape_checks
import chunk_checks
import expr_checks

CHECKS = {}
NOTES = {}
NOT_APPLICABLE = {}
_TT = "TLA+ specification (spec/Tape.tla) model-checked with TLC; its behaviours replayed into the real tape"
_TN = ("Every behaviour within the bounds of the listed TLC configurations, plus seeded random behaviours of about 70-130 "
       "calls, replayed call by call into the code built in both slot configurations, with and without checks, with "
       "sanitizers and small storage blocks, for several scalar types; the specification's own gradient oracle (forward "
       "tangents) is an invariant. Trusts the replay driver and the integer linear/bilinear operation mix.")
for _p in tape_checks.RUNS:
    CHECKS[_p] = (lambda p: lambda: tape_checks.run_tape(p))(_p)
    NOTES[_p] = (_TT, _TN)

CHECKS["C12"] = chunk_checks.run_c12
NOTES["C12"] = ("TLA+ specification (spec/Chunk.tla, spec/Tape.tla) model-checked with TLC; behaviours replayed into the real containers and tape",
                "All call sequences of the listed TLC configurations around every block boundary for block sizes 2 and 3, random "
                "ones for three containers, four element types (one counting lifetimes), under sanitizers; tape behaviours on "
                "block sizes 3-5; recordings ending around the real 8M-element boundary. append() only with up to one block.")

CHECKS["C02"] = expr_checks.run_c02
CHECKS["C03"] = expr_checks.run_c03
CHECKS["C04"] = expr_checks.run_c04

_ET = ("TLA+ specifications (spec/Expr.tla, spec/Sym.tla, spec/Rules.tla) model-checked with TLC; the generated programs are "
       "compiled against the real active types and compared with the specification's symbolic derivatives")
_EN = ("The calculus of Sym.tla is evaluated in quadruple precision (harness/oracle.cpp) and cross-checked against central "
       "differences; tolerances come from the conditioning at each point, points outside the stated domains are not judged. ")
NOTES["C02"] = (_ET, _EN + "Every statement form with every kind of operand exhaustively, random programs of up to 6 statements; "
                "double and float, adjoint and tangent types, address/UB sanitizers.")
NOTES["C03"] = (_ET, _EN + "Every operation with every combination of operand kinds, sampled points plus special values and kinks.")
NOTES["C04"] = (_ET, _EN + "All four second-order and eight third-order nestings, every operation and random programs.")

import jac_checks
CHECKS["C14"] = jac_checks.run_c14
CHECKS["C15"] = jac_checks.run_c15
NOTES["C14"] = NOTES["C15"] = (
    "TLA+ specification (spec/Jac.tla) model-checked with TLC; its behaviours replayed into computeJacobian / computeHessian",
    "All overloads, shapes from 0 x 0 to 3 x 3 (larger in the long runs), tape situations, matrix sizes offered and ways the function "
    "treats its argument within the listed TLC configurations, each followed by plain use of the same inputs and tape; exact "
    "integer polynomials, derivatives computed in the specification and checked there against differences.")

import active_checks
CHECKS["C09"] = active_checks.run_c09
NOTES["C09"] = (
    "TLA+ specification (spec/Active.tla, spec/Tape.tla) model-checked with TLC; behaviours replayed on real threads",
    "All interleavings of the listed TLC configurations (2-3 threads, 2 tapes, 5-6 calls) and random ones of 60-90 calls on up to 5 "
    "tapes of 5 types, replayed with every thread reporting what is active after every call; projections of behaviours without hand-over, "
    "and whole Tape.tla behaviours, run on threads that really overlap, under ThreadSanitizer. The overlapping runs see the schedules the "
    "machine happens to produce.")

import cplx_checks
CHECKS["C16"] = cplx_checks.run_c16
CHECKS["C17"] = cplx_checks.run_c17
_CT = ("TLA+ specifications (spec/Cplx.tla, spec/Sym.tla, spec/Rules.tla) model-checked with TLC; the generated programs over "
       "std::complex of active types are compiled and compared with the specification's symbolic derivatives")
_CN = ("Operations over the complex numbers are terms over real primitives, evaluated in quadruple precision; holomorphic functions are "
       "specified twice (through exp, log and sqrt, and as primitives with their own derivative) and cross-checked. Accuracy is judged "
       "relative to the norm; points on branch cuts and at poles are not judged. ")
NOTES["C16"] = (_CT, _CN + "Every operation and statement form with all 19 kinds of operands including aliased ones, random programs; "
                "double and float, adjoint, tangent and second order.")
NOTES["C17"] = (_CT, _CN + "Every function and every overload of pow and polar on a grid covering the axes and all quadrants and on random "
                "points over many magnitudes; double and float, adjoint, tangent and second order (without log10).")

import passive_checks
CHECKS["C18"] = passive_checks.run_c18
NOTES["C18"] = ("TLA+ specification (spec/Passive.tla) model-checked with TLC; every generated call is made on active values of each kind and type, "
                "and compared with the specification's exact answer and with the same call on the plain value",
                "All pairs of operand kinds with values from every floating-point class; for calls whose answer the specification leaves to the "
                "implementation (formatting, hashing, huge values) the plain call is the only reference. Silence is judged for the tape of the type itself; "
                "signs of NaN results and out-of-range integer conversions are not judged.")
