-------------------------------- MODULE Jac --------------------------------
(***************************************************************************)
(* computeJacobian and computeHessian: what every overload has to return    *)
(* for every shape, tape situation and argument, when it has to reject the  *)
(* call, and what it leaves behind for later calls.                         *)
(*                                                                         *)
(* The function to differentiate is a vector of integer polynomials, so     *)
(* that derivatives are exact and the specification computes them itself.   *)
(* fam:  "adj" AReal, "fwd" FReal (Jacobians),                              *)
(*       "fa" AReal<FReal>, "ff" FReal<FReal> (Hessians)                    *)
(* tape: "none", "active", "inactive" (exists, deactivated),                *)
(*       "other" (exists, deactivated, while another one is active)         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxIn, MaxOut, Styles, Families, Sim, Tapes,
          Plan            \* kinds of calls allowed at every step
MaxSteps == Len(Plan)

VARIABLES fam, n, xs, pre, outs, style, tape, reg, reg0, steps, phase

vars == <<fam, n, xs, pre, outs, style, tape, reg, reg0, steps, phase>>

Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE Sum(_, _)
Sum(f(_), k) == IF k = 0 THEN 0 ELSE f(k) + Sum(f, k - 1)
RECURSIVE Prod(_, _)
Prod(f(_), k) == IF k = 0 THEN 1 ELSE f(k) * Prod(f, k - 1)

------------------------------------------------------------ \* polynomials
\* sequence of <<coefficient, indices of the factors>>
Val(p, x) == LET M(k) == LET F(q) == x[p[k][2][q]] IN p[k][1] * Prod(F, Len(p[k][2])) IN Sum(M, Len(p))
Grad(p, x, j) ==
  LET M(k) == LET ix == p[k][2]
                  T(a) == IF ix[a] # j THEN 0
                          ELSE LET F(q) == IF q = a THEN 1 ELSE x[ix[q]] IN Prod(F, Len(ix))
              IN p[k][1] * Sum(T, Len(ix))
  IN Sum(M, Len(p))
Hess(p, x, i, j) ==
  LET M(k) == LET ix == p[k][2]
                  T(a) == IF ix[a] # i THEN 0
                          ELSE LET S(b) == IF b = a \/ ix[b] # j THEN 0
                                           ELSE LET F(q) == IF q \in {a, b} THEN 1 ELSE x[ix[q]] IN Prod(F, Len(ix))
                               IN Sum(S, Len(ix))
              IN p[k][1] * Sum(T, Len(ix))
  IN Sum(M, Len(p))

Sgn(j) == IF j % 2 = 0 THEN 1 ELSE -1
Poly(kind, i) ==
  CASE kind = "const" \/ n = 0 -> << <<4 + i, <<>> >> >>
    [] kind = "id" -> << <<1, <<((i - 1) % n) + 1>> >> >>
    [] kind = "lin" -> [j \in 1 .. n |-> <<Sgn(j) * (i + 1) * (j + 2), <<j>> >>] \o << <<i, <<>> >> >>
    [] kind = "bil" -> [j \in 1 .. n * n |-> <<j + i, <<((j - 1) \div n) + 1, ((j - 1) % n) + 1>> >>]
    [] kind = "cub" -> [j \in 1 .. n |-> <<Sgn(j + i) * (j + i), <<j, (j % n) + 1, j>> >>] \o << <<2, <<n>> >> >>
Kinds == <<"bil", "id", "cub", "const", "lin">>

Shift(x, j, d) == [x EXCEPT ![j] = @ + d]
\* the derivatives agree with differences (exact for polynomials of degree four)
FiveP(f(_)) == 8 * (f(1) - f(-1)) - (f(2) - f(-2))
DerivativesOK ==
  phase = "calls" =>
    \A i \in 1 .. Len(outs) : \A j \in 1 .. n :
      /\ LET F(d) == Val(outs[i], Shift(xs, j, d)) IN FiveP(F) = 12 * Grad(outs[i], xs, j)
      /\ \A k \in 1 .. n :
           /\ LET F(d) == Grad(outs[i], Shift(xs, k, d), j) IN FiveP(F) = 12 * Hess(outs[i], xs, j, k)
           /\ Hess(outs[i], xs, j, k) = Hess(outs[i], xs, k, j)

------------------------------------------------------------------- \* calls
Forward == fam \in {"fwd", "ff"}
Second == fam \in {"fa", "ff"}
Rows == IF Second THEN n ELSE Len(outs)
Matrix == IF Second THEN [i \in 1 .. n |-> [j \in 1 .. n |-> Hess(outs[1], xs, i, j)]]
          ELSE [i \in 1 .. Len(outs) |-> [j \in 1 .. n |-> Grad(outs[i], xs, j)]]

\* matrices offered to the iterator overloads: sequence of row lengths
Shapes ==
  LET R == Rows
  IN {[s |-> "ok", r |-> [k \in 1 .. R |-> n]], [s |-> "more rows", r |-> [k \in 1 .. R + 1 |-> n]],
      [s |-> "longer rows", r |-> [k \in 1 .. R |-> n + 1]]}
     \cup (IF R > 0 THEN {[s |-> "fewer rows", r |-> [k \in 1 .. R - 1 |-> n]]} ELSE {})
     \cup (IF R > 0 /\ n > 0 THEN {[s |-> "shorter rows", r |-> [k \in 1 .. R |-> n - 1]],
                                   [s |-> "last row short", r |-> [k \in 1 .. R |-> IF k = R THEN n - 1 ELSE n]],
                                   [s |-> "last row long", r |-> [k \in 1 .. R |-> IF k = R THEN n + 1 ELSE n]]} ELSE {})
Fits(sh) == Len(sh.r) = Rows /\ \A k \in 1 .. Len(sh.r) : sh.r[k] = n

\* tape argument: left out, the tape, a null pointer
Args == IF Forward THEN {"def"}
        ELSE {a \in {"def", "ptr", "nul"} :
                /\ a = "ptr" => tape # "none"
                \* variables registered on a tape are only used with that tape
                /\ (reg /\ tape = "inactive") => a = "ptr"}
UsedTape(a) == CASE a = "ptr" -> "given"
                 [] a = "def" /\ tape \in {"active", "other"} -> "current"
                 [] OTHER -> "own"
\* a tape can only be activated while none is
Refused(a) == \/ UsedTape(a) = "own" /\ tape \in {"active", "other"}
              \/ UsedTape(a) = "given" /\ tape = "other"

Outcome(a, sh) == IF ~Forward /\ Refused(a) THEN "TapeAlreadyActive"
                  ELSE IF ~Fits(sh) THEN "OutOfRange"
                  ELSE IF style = "throw" THEN "user" ELSE "matrix"

Call(a, ov, sh) ==
  \* one reason for rejection at a time
  /\ ~Forward /\ Refused(a) => Fits(sh) /\ style # "throw"
  /\ style = "throw" => Fits(sh) /\ ~(Second /\ n = 0)
  /\ steps' = Append(steps, [c |-> "call", a |-> a, ov |-> ov, r |-> sh.r, s |-> sh.s, o |-> Outcome(a, sh),
                             m |-> IF Outcome(a, sh) = "matrix" THEN Matrix ELSE <<>>])
  /\ UNCHANGED <<fam, n, xs, pre, outs, style, tape, reg, reg0, phase>>

\* plain use of the same inputs and the same tape afterwards
W(i) == 2 * i - 1
Use ==
  /\ LET G(j) == LET F(i) == W(i) * Grad(outs[i], xs, j) IN Sum(F, Len(outs))
         T(i) == LET F(j) == pre[j] * Grad(outs[i], xs, j) IN Sum(F, n)
         S(j) == LET F(i) == LET H(k) == pre[k] * Hess(outs[i], xs, j, k) IN W(i) * Sum(H, n) IN Sum(F, Len(outs))
     IN steps' = Append(steps, [c |-> "use", v |-> [i \in 1 .. Len(outs) |-> Val(outs[i], xs)],
                                g |-> [j \in 1 .. n |-> G(j)], t |-> [i \in 1 .. Len(outs) |-> T(i)],
                                s |-> [j \in 1 .. n |-> S(j)]])
  /\ reg' = (reg \/ tape \in {"active", "inactive"})
  /\ UNCHANGED <<fam, n, xs, pre, outs, style, tape, reg0, phase>>

Point == <<2, -3, 5, -1, 4>>
Tang == <<3, -2, 7, 1, -4>>

Init ==
  /\ fam \in Families /\ n \in 0 .. MaxIn
  /\ xs = SubSeq(Point, 1, n)
  /\ pre \in {[j \in 1 .. n |-> 0], SubSeq(Tang, 1, n)}
  /\ (fam = "adj" => \A j \in 1 .. n : pre[j] = 0)
  /\ outs = <<>> /\ style \in Styles
  /\ tape \in (IF Forward THEN {"none"} ELSE Tapes)
  /\ reg \in BOOLEAN /\ (reg => tape \in {"active", "inactive"})
  /\ reg0 = reg
  /\ steps = <<>> /\ phase = "fun"

MaxO == IF Second THEN 1 ELSE MaxOut
\* the outputs are chosen one by one (or in rotation, for the exhaustive runs)
Choose ==
  /\ phase = "fun"
  /\ \/ /\ Sim /\ Len(outs) < MaxO /\ \E f \in DOMAIN Kinds : outs' = Append(outs, Poly(Kinds[f], Len(outs) + 1))
        /\ phase' \in {"fun", "calls"}
     \/ /\ ~Sim /\ \E k \in (IF Second THEN 1 ELSE 0) .. MaxO : \E r \in DOMAIN Kinds :
                outs' = [i \in 1 .. k |-> Poly(Kinds[((i + r) % 5) + 1], i)]
        /\ phase' = "calls"
  /\ UNCHANGED <<fam, n, xs, pre, style, tape, reg, reg0, steps>>

Next == \/ Choose
        \/ /\ phase = "calls" /\ Len(steps) < MaxSteps
           /\ LET P == Plan[Len(steps) + 1]
              IN \/ \E a \in Args :
                      \/ "mat" \in P /\ Call(a, "mat", [s |-> "ok", r |-> [k \in 1 .. Rows |-> n]])
                      \/ "it" \in P /\ \E sh \in Shapes : Call(a, "it", sh)
                 \/ "use" \in P /\ Use
Spec == Init /\ [][Next]_vars

\* a call leaves everything but its result alone
Frame == [][phase = "calls" => UNCHANGED <<fam, n, xs, pre, outs, style, tape>> /\ (reg => reg')]_vars

Emit == Len(steps') = MaxSteps =>
          PrintT("@@" \o ToJson([fam |-> fam, n |-> n, xs |-> xs, pre |-> pre, outs |-> outs, style |-> style,
                                 tape |-> tape, reg |-> reg0, steps |-> steps']))
=============================================================================
