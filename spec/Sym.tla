-------------------------------- MODULE Sym --------------------------------
(***************************************************************************)
(* Symbolic calculus: what every operation of the library computes, where  *)
(* it is differentiable, and its derivatives of any order, obtained by     *)
(* applying the chain rule D repeatedly to one rule per primitive.         *)
(*                                                                         *)
(* A term is a tuple whose first element names it:                         *)
(*   <<"q", n, d>>      the rational n/d       <<"pi">>, <<"ln2">>, ...     *)
(*   <<"r", k, S>>      argument k of the operation, differentiated along   *)
(*                      the directions in the sequence S                    *)
(*   <<f, t1, ..>>      primitive f applied to terms                        *)
(* act[k] says whether argument k is active (a number has derivative 0).   *)
(* Numbers themselves are left to an evaluator; everything that is a        *)
(* statement about derivatives is here.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Q(n, d) == <<"q", n, d>>
Zero == Q(0, 1)
One == Q(1, 1)
Two == Q(2, 1)
IsQ(t) == t[1] = "q"
IsZero(t) == t[1] = "q" /\ t[2] = 0
IsOne(t) == t[1] = "q" /\ t[2] = 1 /\ t[3] = 1

Neg(a) == IF IsQ(a) THEN Q(-a[2], a[3]) ELSE IF a[1] = "neg" THEN a[2] ELSE <<"neg", a>>
Add(a, b) == IF IsZero(a) THEN b ELSE IF IsZero(b) THEN a ELSE <<"add", a, b>>
Sub(a, b) == IF IsZero(b) THEN a ELSE IF IsZero(a) THEN Neg(b) ELSE <<"sub", a, b>>
Mul(a, b) == IF IsZero(a) \/ IsZero(b) THEN Zero ELSE IF IsOne(a) THEN b ELSE IF IsOne(b) THEN a ELSE <<"mul", a, b>>
Div(a, b) == IF IsZero(a) THEN Zero ELSE IF IsOne(b) THEN a ELSE <<"div", a, b>>
Sq(a) == Mul(a, a)
U(f, a) == <<f, a>>
B(f, a, b) == <<f, a, b>>
IfPos(c, a, b) == <<"ifpos", c, a, b>>      \* c > 0 ? a : b
Abs(a) == <<"abs", a>>

ImMul(x) == B("cplx", Neg(U("cim", x)), U("cre", x))     \* i x

(***************************************************************************)
(* Partial derivative of primitive e = <<f, ..>> by its argument j.        *)
(* Conventions at kinks: sgn(0) = 0, heav(0) = 1/2, rounding functions 0.   *)
(***************************************************************************)
PR(e, j) ==
  LET f == e[1]
      a == e[2]
      b == e[3]
  IN CASE f = "neg" -> Q(-1, 1)
       [] f = "add" -> One
       [] f = "sub" -> IF j = 1 THEN One ELSE Q(-1, 1)
       [] f = "mul" -> IF j = 1 THEN b ELSE a
       [] f = "div" -> IF j = 1 THEN Div(One, b) ELSE Neg(Div(e, b))
       [] f = "sin" -> U("cos", a)
       [] f = "cos" -> Neg(U("sin", a))
       [] f = "tan" -> Add(One, Sq(e))
       [] f = "asin" -> Div(One, U("sqrt", Sub(One, Sq(a))))
       [] f = "acos" -> Neg(Div(One, U("sqrt", Sub(One, Sq(a)))))
       [] f = "atan" -> Div(One, Add(One, Sq(a)))
       [] f = "sinh" -> U("cosh", a)
       [] f = "cosh" -> U("sinh", a)
       [] f = "tanh" -> Sub(One, Sq(e))
       [] f = "asinh" -> Div(One, U("sqrt", Add(Sq(a), One)))
       [] f = "acosh" -> Div(One, U("sqrt", Sub(Sq(a), One)))
       [] f = "atanh" -> Div(One, Sub(One, Sq(a)))
       [] f = "exp" -> e
       [] f = "expm1" -> U("exp", a)
       [] f = "exp2" -> Mul(<<"ln2">>, e)
       [] f = "log" -> Div(One, a)
       [] f = "log10" -> Div(One, Mul(<<"ln10">>, a))
       [] f = "log2" -> Div(One, Mul(<<"ln2">>, a))
       [] f = "log1p" -> Div(One, Add(One, a))
       [] f = "sqrt" -> Div(Q(1, 2), e)
       [] f = "cbrt" -> Div(Q(1, 3), Sq(e))
       [] f = "erf" -> Mul(<<"two_over_sqrtpi">>, U("exp", Neg(Sq(a))))
       [] f = "erfc" -> Neg(Mul(<<"two_over_sqrtpi">>, U("exp", Neg(Sq(a)))))
       [] f = "abs" -> U("sgn", a)
       [] f \in {"sgn", "heav", "floor", "ceil", "trunc", "round", "rint", "binexp", "sgnbit", "ceq"} -> Zero
       \* a^b; mulz is a product that is 0 as soon as its first factor is 0
       [] f = "pow" -> IF j = 1 THEN B("mulz", b, B("pow", a, Sub(b, One))) ELSE B("mulz", e, U("log", a))
       [] f = "mulz" -> IF j = 1 THEN b ELSE a
       [] f = "atan2" -> IF j = 1 THEN Div(b, Add(Sq(a), Sq(b))) ELSE Neg(Div(a, Add(Sq(a), Sq(b))))
       [] f = "hypot" -> Div(IF j = 1 THEN a ELSE b, e)
       [] f \in {"max", "fmax"} -> IF j = 1 THEN U("heav", Sub(a, b)) ELSE U("heav", Sub(b, a))
       [] f \in {"min", "fmin"} -> IF j = 1 THEN U("heav", Sub(b, a)) ELSE U("heav", Sub(a, b))
       \* a - b * (integer quotient)
       [] f = "fmod" -> IF j = 1 THEN One ELSE Neg(U("trunc", Div(a, b)))
       [] f = "remainder" -> IF j = 1 THEN One ELSE Neg(U("rint", Div(a, b)))
       [] f = "nextafter" -> IF j = 1 THEN One ELSE Zero
       \* complex functions (analytic; arithmetic above is read over the complex numbers)
       [] f = "cexp" -> e
       [] f = "clog" -> Div(One, a)
       [] f = "csqrt" -> Div(Q(1, 2), e)
       [] f = "csin" -> U("ccos", a)
       [] f = "ccos" -> Neg(U("csin", a))
       [] f = "ctan" -> U("csec2", a)
       [] f = "csec2" -> Mul(Two, Mul(e, U("ctan", a)))
       [] f \in {"casin", "cacos"} -> LET x == Div(Div(One, U("csqrt", Sub(One, a))), U("csqrt", Add(One, a)))
                                      IN IF f = "casin" THEN x ELSE Neg(x)
       [] f = "catan" -> Div(Div(One, Add(One, ImMul(a))), Sub(One, ImMul(a)))
       [] f = "csinh" -> U("ccosh", a)
       [] f = "ccosh" -> U("csinh", a)
       [] f = "ctanh" -> U("csech2", a)
       [] f = "csech2" -> Neg(Mul(Two, Mul(e, U("ctanh", a))))
       [] f = "casinh" -> Div(Div(One, U("csqrt", Add(One, ImMul(a)))), U("csqrt", Sub(One, ImMul(a))))
       [] f = "cacosh" -> Div(Div(One, U("csqrt", Sub(a, One))), U("csqrt", Add(a, One)))
       [] f = "catanh" -> Div(Div(One, Add(One, a)), Sub(One, a))
       [] OTHER -> <<"no rule for", f>>

\* linear over the real numbers
Linear == {"cre", "cim", "cconj", "cplx"}
RECURSIVE D(_, _, _)
D(e, d, act) ==
  CASE e[1] = "r" -> IF act[e[2]] THEN <<"r", e[2], Append(e[3], d)>> ELSE Zero
    [] Len(e) = 1 \/ e[1] = "q" -> Zero
    [] e[1] = "ifpos" -> LET x == D(e[3], d, act)
                             y == D(e[4], d, act)
                         IN IF x = y THEN x ELSE IfPos(e[2], x, y)
    [] e[1] \in Linear -> LET g == [k \in 2 .. Len(e) |-> D(e[k], d, act)]
                          IN IF \A k \in 2 .. Len(e) : IsZero(g[k]) THEN Zero
                             ELSE [k \in 1 .. Len(e) |-> IF k = 1 THEN e[1] ELSE g[k]]
    [] e[1] = "mulz" -> LET x == D(e[2], d, act)
                            y == D(e[3], d, act)
                        IN Add(IF IsZero(x) THEN Zero ELSE <<"mulz", x, e[3]>>,
                               IF IsZero(y) THEN Zero ELSE <<"mulz", e[2], y>>)
    [] Len(e) = 2 -> LET x == D(e[2], d, act) IN IF IsZero(x) THEN Zero ELSE Mul(PR(e, 1), x)
    [] OTHER -> LET x == D(e[2], d, act)
                    y == D(e[3], d, act)
                IN Add(IF IsZero(x) THEN Zero ELSE Mul(PR(e, 1), x),
                       IF IsZero(y) THEN Zero ELSE Mul(PR(e, 2), y))

(***************************************************************************)
(* The library's functions as terms over their arguments.                  *)
(***************************************************************************)
Arg(k) == <<"r", k, <<>> >>
SmoothAbs(x, c) == IfPos(Sub(Abs(x), c), Abs(x), Mul(Sq(x), Sub(Div(Two, c), Div(Abs(x), Sq(c)))))
Default == Q(1, 1000)
Half(x) == Mul(Q(1, 2), x)
CopySign(x, y) == Mul(Mul(x, U("sgnbit", x)), U("sgnbit", y))

\* complex functions
Im1 == <<"cI">>
NegIm(x) == B("cplx", U("cim", x), Neg(U("cre", x)))     \* -i x
CSinh(x) == Half(Sub(U("cexp", x), U("cexp", Neg(x))))
CCosh(x) == Half(Add(U("cexp", x), U("cexp", Neg(x))))
CTanh(x) == Div(CSinh(x), CCosh(x))
CAsinh(x) == U("clog", Add(x, U("csqrt", Add(One, Sq(x)))))
CAtanh(x) == Half(Sub(U("clog", Add(One, x)), U("clog", Sub(One, x))))
CPow(x, y) == U("cexp", Mul(U("clog", x), y))
CNorm(x) == Add(Sq(U("cre", x)), Sq(U("cim", x)))
Polar(r, t) == B("cplx", Mul(r, U("cos", t)), Mul(r, U("sin", t)))

CPrim == {"zsinh", "zcosh", "ztanh", "zsin", "zcos", "ztan", "zasinh", "zacosh", "zatanh", "zasin", "zacos", "zatan"}
CName(f) == CASE f = "zsinh" -> "csinh" [] f = "zcosh" -> "ccosh" [] f = "ztanh" -> "ctanh"
              [] f = "zsin" -> "csin" [] f = "zcos" -> "ccos" [] f = "ztan" -> "ctan"
              [] f = "zasinh" -> "casinh" [] f = "zacosh" -> "cacosh" [] f = "zatanh" -> "catanh"
              [] f = "zasin" -> "casin" [] f = "zacos" -> "cacos" [] f = "zatan" -> "catan"
CFun(f) ==
  LET a == Arg(1)
      b == Arg(2)
  IN CASE f = "zadd" -> Add(a, b)
       [] f = "zsub" -> Sub(a, b)
       [] f = "zmul" -> Mul(a, b)
       [] f = "zdiv" -> Div(a, b)
       [] f = "zneg" -> Neg(a)
       [] f \in {"zpos", "zproj", "rproj", "rconj", "rre", "zcplx1", "zlit"} -> a
       [] f = "zcplx" -> B("cplx", a, b)
       [] f = "zre" -> U("cre", a)
       [] f = "zim" -> U("cim", a)
       [] f = "rim" -> Zero
       [] f = "zconj" -> U("cconj", a)
       [] f = "znorm" -> CNorm(a)
       [] f = "rnorm" -> Sq(a)
       [] f = "zabs" -> B("hypot", U("cre", a), U("cim", a))
       [] f = "zarg" -> B("atan2", U("cim", a), U("cre", a))
       [] f = "rarg" -> IfPos(a, Zero, <<"pi">>)
       [] f = "zpolar" -> Polar(a, b)
       [] f = "zpolar1" -> a
       [] f = "zsetre" -> B("cplx", b, U("cim", a))
       [] f = "zsetim" -> B("cplx", U("cre", a), b)
       [] f = "zeq" -> B("ceq", a, b)
       [] f = "zne" -> Sub(One, B("ceq", a, b))
       [] f = "zexp" -> U("cexp", a)
       [] f = "zlog" -> U("clog", a)
       [] f = "zlog10" -> Div(U("clog", a), <<"ln10">>)
       [] f = "zsqrt" -> U("csqrt", a)
       [] f \in {"zpow", "zpown", "rpow"} -> CPow(a, b)      \* complex, integer exponent, real base
       [] f \in CPrim -> U(CName(f), a)

\* the same functions by their definition in terms of exp, log and sqrt (principal branches): the two
\* have to agree in value and derivative
CAlt(f) ==
  LET a == Arg(1)
  IN CASE f = "zsinh" -> CSinh(a)
       [] f = "zcosh" -> CCosh(a)
       [] f = "ztanh" -> CTanh(a)
       [] f = "zsin" -> NegIm(CSinh(ImMul(a)))
       [] f = "zcos" -> CCosh(ImMul(a))
       [] f = "ztan" -> NegIm(CTanh(ImMul(a)))
       [] f = "zasinh" -> CAsinh(a)
       [] f = "zacosh" -> U("clog", Add(a, Mul(U("csqrt", Add(a, One)), U("csqrt", Sub(a, One)))))
       [] f = "zatanh" -> CAtanh(a)
       [] f = "zasin" -> NegIm(CAsinh(ImMul(a)))
       [] f = "zacos" -> Add(Half(<<"pi">>), ImMul(U("clog", Add(ImMul(a), U("csqrt", Sub(One, Sq(a)))))))
       [] f = "zatan" -> NegIm(CAtanh(ImMul(a)))
       [] OTHER -> CFun(f)

CDom(f) ==
  LET a == Arg(1)
      b == Arg(2)
      re == U("cre", a)
      im == U("cim", a)
      cut == <<IfPos(re, One, Abs(im))>>
      OneMinus(x) == Sub(One, Abs(x))
      Big(x) == Add(Abs(U("cre", x)), Abs(U("cim", x)))
      Fits(x) == Sub(Q(100000000, 1), Big(x))     \* squares of squares do not overflow a float
  IN CASE f = "zdiv" -> <<Sub(CNorm(b), Q(1, 100000000)), Fits(b)>>
       [] f = "zabs" -> <<CNorm(a)>>
       [] f = "rarg" -> <<Abs(a)>>
       [] f \in {"zlog", "zlog10", "zsqrt", "zarg", "zpow"} -> cut \o <<CNorm(a)>>
       [] f \in {"zpown", "rpow"} -> <<CNorm(a)>>        \* no jump across the negative axis
       [] f = "ztan" -> <<Fits(U("csec2", a))>>
       [] f = "ztanh" -> <<Fits(U("csech2", a))>>
       [] f \in {"zasin", "zacos", "zatanh"} -> <<IfPos(OneMinus(re), One, Abs(im))>>
       [] f \in {"zasinh", "zatan"} -> <<IfPos(OneMinus(im), One, Abs(re))>>
       [] f = "zacosh" -> <<IfPos(Sub(re, One), One, Abs(im))>>
       [] f \in {"zeq", "zne"} -> <<CNorm(Sub(a, b))>>
       [] OTHER -> <<>>

CArith == {"zadd", "zsub", "zmul", "zdiv"}
CBin == CArith \cup {"zcplx", "zpolar", "zpow", "zpown", "rpow", "zeq", "zne", "zsetre", "zsetim"}
CTrans == {"zexp", "zlog", "zlog10", "zsqrt", "zsin", "zcos", "ztan", "zasin", "zacos", "zatan",
           "zsinh", "zcosh", "ztanh", "zasinh", "zacosh", "zatanh"}
CUn == CTrans \cup {"zneg", "zpos", "zproj", "zre", "zim", "zconj", "znorm", "zabs", "zarg", "zcplx1",
                    "rproj", "rconj", "rre", "rim", "rnorm", "rarg", "zpolar1"}
COps == CUn \cup CBin \cup {"zlit"}

Fun(f) ==
  LET a == Arg(1)
      b == Arg(2)
      c == Arg(3)
  IN CASE f = "neg" -> Neg(a)
       [] f = "pos" -> a
       [] f \in {"add", "sub", "mul", "div", "pow", "max", "fmax", "min", "fmin", "fmod", "atan2", "hypot",
                 "remainder", "nextafter"} -> B(f, a, b)
       [] f = "remquo" -> B("remainder", a, b)
       [] f = "degrees" -> Mul(Div(Q(180, 1), <<"pi">>), a)
       [] f = "radians" -> Mul(Div(<<"pi">>, Q(180, 1)), a)
       [] f = "fabs" -> Abs(a)
       [] f = "pown" -> B("pow", a, b)
       [] f \in {"ldexp", "scalbn"} -> Mul(a, U("exp2", b))
       [] f = "frexp" -> Mul(a, U("exp2", Neg(U("binexp", a))))
       [] f \in {"modf", "modfx"} -> Sub(a, U("trunc", a))
       [] f = "copysign" -> CopySign(a, b)
       [] f = "smooth_abs1" -> SmoothAbs(a, Default)
       [] f = "smooth_abs" -> SmoothAbs(a, b)
       [] f = "smooth_max2" -> Half(Add(Add(a, b), SmoothAbs(Sub(a, b), Default)))
       [] f = "smooth_min2" -> Half(Sub(Add(a, b), SmoothAbs(Sub(a, b), Default)))
       [] f = "smooth_max" -> Half(Add(Add(a, b), SmoothAbs(Sub(a, b), c)))
       [] f = "smooth_min" -> Half(Sub(Add(a, b), SmoothAbs(Sub(a, b), c)))
       [] f \in COps -> CFun(f)
       [] OTHER -> U(f, a)

\* conditions (terms that have to be positive) under which f is differentiable
\* in its active arguments, conventions at kinks aside
ToInt(x) == Abs(Sub(x, U("rint", x)))
Dom(f, act) ==
  LET a == Arg(1)
      b == Arg(2)
      c == Arg(3)
      Gap(x, y) == Abs(Sub(x, y))
  IN CASE f \in {"log", "log10", "log2", "sqrt"} -> <<a>>
       [] f = "log1p" -> <<Add(One, a)>>
       [] f \in {"cbrt", "abs", "fabs", "frexp"} -> <<Abs(a)>>
       [] f \in {"asin", "acos", "atanh"} -> <<Sub(One, Abs(a))>>
       [] f = "acosh" -> <<Sub(a, One)>>
       [] f = "tan" -> <<Abs(U("cos", a))>>
       [] f = "div" -> <<Abs(b)>>
       [] f = "pow" -> IF act[1] /\ act[2] THEN <<a>>
                       ELSE IF act[1] THEN <<Abs(a), IfPos(a, One, U("isint", b))>>
                       ELSE <<a>>
       [] f = "pown" -> <<Abs(a)>>
       [] f \in {"max", "fmax", "min", "fmin"} -> <<Gap(a, b)>>
       [] f \in {"floor", "ceil", "trunc", "modf", "modfx"} -> <<ToInt(a)>>
       [] f = "round" -> <<Gap(Q(1, 2), ToInt(a))>>
       [] f = "fmod" -> <<Abs(b), ToInt(Div(a, b)), Sub(Q(100000000, 1), Abs(Div(a, b)))>>
       [] f \in {"remainder", "remquo"} ->
              <<Abs(b), Gap(Q(1, 2), ToInt(Div(a, b))), Sub(Q(100000000, 1), Abs(Div(a, b)))>>
       [] f = "nextafter" -> <<Gap(a, b), Abs(a)>>
       [] f = "atan2" -> <<IfPos(b, One, Abs(a))>>
       [] f = "hypot" -> <<Add(Sq(a), Sq(b))>>
       [] f = "copysign" -> <<Abs(a), Abs(b)>>
       [] f = "smooth_abs1" -> <<Gap(Abs(a), Default)>>
       [] f = "smooth_abs" -> <<b, Gap(Abs(a), b)>>
       [] f \in {"smooth_max2", "smooth_min2"} -> <<Gap(Gap(a, b), Default)>>
       [] f \in {"smooth_max", "smooth_min"} -> <<c, Gap(Gap(a, b), c)>>
       [] f \in COps -> CDom(f)
       [] OTHER -> <<>>

Unary == {"neg", "pos", "degrees", "radians", "cos", "sin", "log", "log10", "log2", "asin", "acos", "atan", "sinh",
          "cosh", "expm1", "exp2", "log1p", "asinh", "acosh", "atanh", "abs", "fabs", "floor", "ceil", "trunc",
          "round", "exp", "tanh", "sqrt", "cbrt", "tan", "erf", "erfc", "smooth_abs1", "frexp", "modf", "modfx"}
Arith == {"add", "sub", "mul", "div"}
Binary == Arith \cup {"pow", "max", "fmax", "min", "fmin", "fmod", "atan2", "hypot", "remainder", "remquo",
          "nextafter", "smooth_abs", "smooth_max2", "smooth_min2", "copysign"}
IntArg == {"pown", "ldexp", "scalbn"}      \* second argument is an int
Ternary == {"smooth_max", "smooth_min"}
Ops == Unary \cup Binary \cup IntArg \cup Ternary
Arity(f) == IF f \in Unary \cup CUn \cup {"zlit"} THEN 1 ELSE IF f \in Ternary THEN 3 ELSE 2

\* further conditions for third derivatives: the cubic |x|^3 inside smooth_abs
Dom3(f, act) ==
  LET a == Arg(1)
      b == Arg(2)
      Gap(x, y) == Abs(Sub(x, y))
  IN CASE f \in {"smooth_abs1", "smooth_abs"} -> <<Abs(a)>>
       [] f \in {"smooth_max2", "smooth_min2", "smooth_max", "smooth_min"} -> <<Gap(a, b)>>
       [] OTHER -> <<>>

Patterns(f) == IF f \in Unary \cup CUn THEN {<<TRUE>>}
               ELSE IF f = "zcplx" THEN [1 .. 2 -> BOOLEAN]
               ELSE IF f = "zlit" THEN {<<FALSE>>}
               ELSE IF f \in IntArg \cup {"zpown"} THEN {<<TRUE, FALSE>>}
               ELSE {p \in [1 .. Arity(f) -> BOOLEAN] : \E k \in 1 .. Arity(f) : p[k]}

\* the derivative of f along directions 1..n
RECURSIVE Lift(_, _, _)
Lift(f, act, n) == IF n = 0 THEN Fun(f) ELSE D(Lift(f, act, n - 1), n, act)
=============================================================================
