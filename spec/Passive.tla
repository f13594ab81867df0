------------------------------- MODULE Passive -------------------------------
(***************************************************************************)
(* What active values answer when they are compared, classified, rounded,   *)
(* converted, printed and read: what their floating-point value answers,    *)
(* whatever kind of operand they are. Nothing is recorded: a call changes   *)
(* no state but the answer.                                                *)
(*                                                                         *)
(* A value is a class and a sign; ordinary values are multiples of 1/8:     *)
(*   nan, inf, zero, sub (smallest denormal), min (smallest normal number), *)
(*   max (largest), fin (m/8).                                              *)
(* The answers are computed here from these by exact arithmetic.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Group, Fins

VARIABLES call, ans
vars == <<call, ans>>

V(c, s, m) == [c |-> c, s |-> s, m |-> m]
Sgn(s) == IF s = 1 THEN -1 ELSE 1
Abs(i) == IF i < 0 THEN -i ELSE i
Fin(m) == V("fin", IF m < 0 THEN 1 ELSE 0, m)
Zero(s) == V("zero", s, 0)
NaN == V("nan", 0, 0)
Special == {V(c, s, 0) : c \in {"inf", "zero", "sub", "min", "max"}, s \in {0, 1}} \cup {NaN, V("nan", 1, 0)}
Vals == Special \cup {Fin(m) : m \in Fins}
IsNum(v) == v.c \notin {"nan", "inf"}
Small(v) == v.c \in {"sub", "min"}

\* order of the numbers
Key(v) == CASE v.c = "inf" -> Sgn(v.s) * 2000000000 [] v.c = "max" -> Sgn(v.s) * 1999999999
            [] v.c = "zero" -> 0 [] v.c = "sub" -> Sgn(v.s) [] v.c = "min" -> 2 * Sgn(v.s) [] v.c = "fin" -> 16 * v.m
Un(a, b) == a.c = "nan" \/ b.c = "nan"
Cmp(o, a, b) == CASE o = "==" -> ~Un(a, b) /\ Key(a) = Key(b) [] o = "!=" -> Un(a, b) \/ Key(a) # Key(b)
                  [] o = "<" -> ~Un(a, b) /\ Key(a) < Key(b) [] o = ">" -> ~Un(a, b) /\ Key(a) > Key(b)
                  [] o = "<=" -> ~Un(a, b) /\ Key(a) <= Key(b) [] o = ">=" -> ~Un(a, b) /\ Key(a) >= Key(b)
CmpOps == {"==", "!=", "<", ">", "<=", ">="}

\* ------------------------------------------------------------------ rounding
IntV(k, s) == IF k = 0 THEN Zero(s) ELSE Fin(8 * k)
Trunc(m) == Sgn(IF m < 0 THEN 1 ELSE 0) * (Abs(m) \div 8)
Away(m) == Sgn(IF m < 0 THEN 1 ELSE 0) * ((Abs(m) + 4) \div 8)
FloorI(v) == IF v.c = "fin" THEN v.m \div 8 ELSE IF Small(v) /\ v.s = 1 THEN -1 ELSE 0
CeilI(v) == IF v.c = "fin" THEN -((-v.m) \div 8) ELSE IF Small(v) /\ v.s = 0 THEN 1 ELSE 0
TruncI(v) == IF v.c = "fin" THEN Trunc(v.m) ELSE 0
RoundI(v) == IF v.c = "fin" THEN Away(v.m) ELSE 0
Whole(v) == v.c \in {"nan", "inf", "max", "zero"}
RECURSIVE Log2(_)
Log2(k) == IF k < 2 THEN 0 ELSE 1 + Log2(k \div 2)
Exact(v) == v.c \in {"fin", "zero"}
\* the integer nearest to a/b, halves to even
Even(a, b) == LET q == a \div b
                  r == a - q * b
              IN IF 2 * r < b THEN q ELSE IF 2 * r > b THEN q + 1 ELSE IF q % 2 = 0 THEN q ELSE q + 1
Rem(a, b, n) == LET r == a.m - n * b.m IN IF r = 0 THEN Zero(a.s) ELSE Fin(r)
NearestQ(a, b) == LET s == IF a.s = b.s THEN 1 ELSE -1 IN s * Even(Abs(a.m), Abs(b.m))
TruncQ(a, b) == LET s == IF a.s = b.s THEN 1 ELSE -1 IN s * (Abs(a.m) \div Abs(b.m))

\* answers
T(v) == <<v.c, v.s, v.m>>
B(b) == <<IF b THEN "1" ELSE "0">>
N(k) == <<ToString(k)>>
Free == <<"any">>                 \* left to the implementation: what the plain call gives
Un1 == {"isnan", "isinf", "isfinite", "isnormal", "signbit", "fpclassify", "bool", "not", "pick",
        "floor", "ceil", "trunc", "round", "abs", "fabs", "neg", "pos", "lround", "llround", "ilogb", "frexp", "modf",
        "toint", "toshort", "tochar", "toschar", "tolong", "tollong", "touint", "toushort", "touchar", "toulong", "toullong",
        "out", "outfmt", "wout", "tostr", "hash", "value", "getvalue"}
ConvR == [toint |-> <<-100000, 100000>>, toshort |-> <<-32768, 32767>>, tochar |-> <<-128, 127>>, toschar |-> <<-128, 127>>,
          tolong |-> <<-100000, 100000>>, tollong |-> <<-100000, 100000>>, touint |-> <<0, 100000>>, toushort |-> <<0, 65535>>,
          touchar |-> <<0, 255>>, toulong |-> <<0, 100000>>, toullong |-> <<0, 100000>>]
Frac == <<"", ".125", ".25", ".375", ".5", ".625", ".75", ".875">>
Text(v) == (IF v.s = 1 THEN "-" ELSE "") \o
           (CASE v.c = "nan" -> "nan" [] v.c = "inf" -> "inf" [] v.c = "zero" -> "0"
              [] v.c = "fin" -> ToString(Abs(v.m) \div 8) \o Frac[(Abs(v.m) % 8) + 1])
Ans1(f, v) ==
  CASE f = "isnan" -> B(v.c = "nan") [] f = "isinf" -> B(v.c = "inf")
    [] f = "isfinite" -> B(IsNum(v)) [] f = "isnormal" -> B(v.c \in {"fin", "min", "max"})
    [] f = "signbit" -> B(v.s = 1) [] f = "fpclassify" -> <<CASE v.c = "nan" -> "nan" [] v.c = "inf" -> "inf" [] v.c = "zero" -> "zero"
                                                              [] v.c = "sub" -> "sub" [] OTHER -> "normal">>
    [] f = "bool" -> B(v.c # "zero") [] f = "not" -> B(v.c = "zero") [] f = "pick" -> B(v.c # "zero")
    [] f = "floor" -> IF Whole(v) THEN T(v) ELSE T(IntV(FloorI(v), v.s))
    [] f = "ceil" -> IF Whole(v) THEN T(v) ELSE T(IntV(CeilI(v), v.s))
    [] f = "trunc" -> IF Whole(v) THEN T(v) ELSE T(IntV(TruncI(v), v.s))
    [] f = "round" -> IF Whole(v) THEN T(v) ELSE T(IntV(RoundI(v), v.s))
    [] f \in {"abs", "fabs"} -> IF v.c = "nan" THEN T(V("nan", 0, 0)) ELSE T(V(v.c, 0, Abs(v.m)))
    [] f = "neg" -> T(V(v.c, 1 - v.s, -v.m)) [] f \in {"pos", "value", "getvalue"} -> T(v)
    [] f \in {"lround", "llround"} -> IF v.c \in {"nan", "inf", "max"} THEN <<"skip">> ELSE N(RoundI(v))
    [] f = "ilogb" -> CASE v.c = "fin" -> N(Log2(Abs(v.m)) - 3) [] v.c = "max" -> <<"emax">> [] v.c = "min" -> <<"emin">>
                        [] OTHER -> Free
    [] f = "frexp" -> CASE v.c = "fin" -> N(Log2(Abs(v.m)) - 2) [] v.c = "zero" -> N(0) [] v.c \in {"nan", "inf"} -> <<"skip">> [] OTHER -> Free
    [] f = "modf" -> CASE v.c = "nan" -> T(v) \o T(v) [] v.c = "inf" -> T(Zero(v.s)) \o T(v) [] v.c \in {"max", "zero"} -> T(Zero(v.s)) \o T(v)
                       [] Small(v) -> T(v) \o T(Zero(v.s))
                       [] OTHER -> LET i == Trunc(v.m)
                                       r == v.m - 8 * i
                                   IN T(IF r = 0 THEN Zero(v.s) ELSE Fin(r)) \o T(IntV(i, v.s))
    [] f \in DOMAIN ConvR -> IF v.c \in {"nan", "inf", "max"} \/ TruncI(v) < ConvR[f][1] \/ TruncI(v) > ConvR[f][2] THEN <<"skip">> ELSE N(TruncI(v))
    [] f \in {"out", "wout"} -> IF v.c \in {"sub", "min", "max"} \/ (v.c = "fin" /\ Abs(v.m) >= 8000) THEN Free ELSE <<Text(v)>>
    [] f \in {"outfmt", "tostr", "hash"} -> Free
Bin == {"copysign", "fmod", "remainder", "remquo", "nextafter"}
Ans2(f, a, b) ==
  CASE f = "copysign" -> T(V(a.c, b.s, Sgn(b.s) * Abs(a.m)))
    [] f = "fmod" -> CASE Exact(a) /\ b.c = "fin" -> IF a.c = "zero" THEN T(a) ELSE T(Rem(a, b, TruncQ(a, b)))
                       [] IsNum(a) /\ b.c = "inf" -> T(a) [] Un(a, b) \/ a.c = "inf" \/ b.c = "zero" -> T(NaN) [] OTHER -> Free
    [] f = "remainder" -> CASE Exact(a) /\ b.c = "fin" -> IF a.c = "zero" THEN T(a) ELSE T(Rem(a, b, NearestQ(a, b)))
                            [] IsNum(a) /\ b.c = "inf" -> T(a) [] Un(a, b) \/ a.c = "inf" \/ b.c = "zero" -> T(NaN) [] OTHER -> Free
    [] f = "remquo" -> CASE Exact(a) /\ b.c = "fin" -> LET q == IF a.c = "zero" THEN 0 ELSE NearestQ(a, b)
                                                       IN (IF a.c = "zero" THEN T(a) ELSE T(Rem(a, b, q))) \o N(Sgn(IF q < 0 THEN 1 ELSE 0) * (Abs(q) % 8))
                         [] IsNum(a) /\ b.c = "inf" -> T(a) \o N(0) [] Un(a, b) \/ a.c = "inf" \/ b.c = "zero" -> T(NaN) \o <<"skip">> [] OTHER -> Free
    [] f = "nextafter" -> IF Un(a, b) THEN T(NaN) ELSE IF Key(a) = Key(b) THEN T(b) ELSE Free

\* ------------------------------------------------------------------ operand kinds
\* l, c variables (c: const), r a variable that is not registered, t a temporary, e, b expressions, n an element of a container;
\* s plain scalar, i, u, g integers, f, d the other floating-point type
Act == {"l", "c", "r", "t", "e", "b"}
Plain == {"s", "i", "u", "g", "f"}
\* can the plain operand hold the value?
Fits(k, v) == CASE k \in Act \cup {"s"} -> TRUE [] k \in {"i", "g"} -> (v.c = "fin" /\ v.m % 8 = 0) \/ v = Zero(0)
                [] k = "u" -> (v.c = "fin" /\ v.m % 8 = 0 /\ v.m > 0) \/ v = Zero(0) [] k = "f" -> v.c \in {"fin", "zero", "inf", "nan"}
\* a NaN or zero may be written with either sign; the sign of a NaN is only known for values, not for results of operations
Takes(f, k1, k2) ==
  /\ k1 \in Act \/ k2 \in Act
  /\ f = "copysign" => k1 \in Act \cup {"s"} /\ k2 \in Act \cup {"s"}
  /\ f = "nextafter" => {k1, k2} \subseteq Act \cup {"s"}
\* text, what is read from it, and what is left
Texts == {<<"1.5 2", Fin(12), " 2">>, <<"-0", Zero(1), "">>, <<"  7x", Fin(56), "x">>, <<"+3", Fin(24), "">>, <<".5", Fin(4), "">>,
          <<"1e1", Fin(80), "">>, <<"-12.125,", Fin(-97), ",">>, <<"0x", Free, "">>, <<"abc", Free, "">>, <<"", Free, "">>, <<"-", Free, "">>,
          <<"1e", Free, "">>, <<"nan", Free, "">>, <<"inf", Free, "">>, <<"1e999", Free, "">>, <<"-1e999 4", Free, "">>, <<"1e-999", Free, "">>}
Ans(c) == CASE c[1] \in {"in", "win"} -> <<"read">>
            [] c[1] \in Un1 -> Ans1(c[1], c[3])
            [] c[1] \in CmpOps -> B(Cmp(c[1], c[3], c[5]))
            [] OTHER -> Ans2(c[1], c[3], c[5])
Kinds2 == {k \in (Act \cup Plain) \X (Act \cup Plain) : k[1] \in Act \/ k[2] \in Act}
Init == /\ ans = <<>>
        /\ CASE Group = "cmp" -> \E k \in Kinds2, a \in Vals, b \in Vals, o \in CmpOps :
                                   Fits(k[1], a) /\ Fits(k[2], b) /\ call = <<o, k[1], a, k[2], b>>
             [] Group = "bin" -> \E o \in Bin, k \in Kinds2, a \in Vals, b \in Vals :
                                   Takes(o, k[1], k[2]) /\ Fits(k[1], a) /\ Fits(k[2], b) /\ call = <<o, k[1], a, k[2], b>>
             [] Group = "un" -> \E f \in Un1, k \in Act, a \in Vals : call = <<f, k, a>>
             [] Group = "in" -> \E f \in {"in", "win"}, k \in {"l", "r"}, t \in Texts : call = <<f, k, t[1], t[2], t[3]>>
Next == ans = <<>> /\ ans' = Ans(call) /\ UNCHANGED call
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ properties
\* an answer depends on the values only, and agrees with those to related questions
Converse == [o \in CmpOps |-> CASE o = "<" -> ">" [] o = ">" -> "<" [] o = "<=" -> ">=" [] o = ">=" -> "<=" [] OTHER -> o]
Coherent == ans # <<>> =>
  LET f == call[1]
  IN CASE f \in CmpOps -> ans = B(Cmp(Converse[f], call[5], call[3])) /\ ans \in {B(TRUE), B(FALSE)}
       [] f = "fpclassify" -> LET is(g) == Ans1(g, call[3]) = B(TRUE)
                              IN /\ is("isnan") = (ans = <<"nan">>) /\ is("isinf") = (ans = <<"inf">>) /\ is("isnormal") = (ans = <<"normal">>)
                                 /\ is("isfinite") = (ans \notin {<<"nan">>, <<"inf">>}) /\ is("not") = (ans = <<"zero">>) /\ is("bool") = ~is("not")
       [] f \in {"floor", "ceil", "trunc", "round"} -> ans[2] = call[3].s
       [] f = "neg" -> ans[2] = 1 - call[3].s
       [] f \in {"fmod", "remainder"} -> ans = Free \/ ans[1] # "zero" \/ ans[2] = call[3].s
       [] OTHER -> TRUE
Lt(a, b) == Cmp("<", a, b)
Eq(a, b) == Cmp("==", a, b)
ASSUME \A a, b \in Vals :
  /\ Un(a, b) => \A o \in CmpOps : Cmp(o, a, b) = (o = "!=")
  /\ ~Un(a, b) => Cardinality({r \in {"<", "==", ">"} : Cmp(r, a, b)}) = 1
  /\ Cmp("!=", a, b) = ~Eq(a, b) /\ Lt(a, b) = Cmp(">", b, a) /\ Eq(a, b) = Eq(b, a)
  /\ Cmp("<=", a, b) = (Lt(a, b) \/ Eq(a, b)) /\ Cmp(">=", a, b) = (Cmp(">", a, b) \/ Eq(a, b))
ASSUME \A v \in Vals : v.c = "fin" =>
  LET Of(f) == Ans1(f, v)[3]
  IN /\ Of("floor") <= v.m /\ v.m - Of("floor") < 8 /\ Of("ceil") >= v.m /\ Of("ceil") - v.m < 8
     /\ Of("trunc") = IF v.m > 0 THEN Of("floor") ELSE Of("ceil")
     /\ Abs(Of("round") - v.m) <= 4 /\ (Abs(Of("round") - v.m) = 4 => Abs(Of("round")) > Abs(v.m))
     /\ \A f \in {"floor", "ceil", "trunc", "round"} : Of(f) % 8 = 0
     /\ Ans1("modf", v)[3] + Ans1("modf", v)[6] = v.m
ASSUME \A a, b \in Vals : (a.c = "fin" /\ b.c = "fin") =>
  LET r == Ans2("remainder", a, b)[3]
      q == Ans2("fmod", a, b)[3]
  IN /\ 2 * Abs(r) <= Abs(b.m) /\ (a.m - r) % Abs(b.m) = 0
     /\ Abs(q) < Abs(b.m) /\ (a.m - q) % Abs(b.m) = 0 /\ q * Sgn(a.s) >= 0

Emit == PrintT("@@" \o ToJson([c |-> call, a |-> ans']))
=============================================================================
