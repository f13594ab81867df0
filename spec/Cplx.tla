-------------------------------- MODULE Cplx --------------------------------
(***************************************************************************)
(* Programs over real and complex active variables, and what they compute.  *)
(* As in Expr, a behaviour builds one program together with its meaning as   *)
(* single-assignment nodes (over the real and complex numbers, rules in Sym); *)
(* here operands are typed and each operation is offered for exactly the      *)
(* combinations of operand kinds the library provides.  Targets and operands   *)
(* may be the same variable, or one a part of the other.                       *)
(***************************************************************************)
EXTENDS Sym, TLC, Json

CONSTANTS NR, NZ,          \* real and complex independent variables
          MaxStm, MaxNodes, MaxStack, MaxVars,
          Weights, Un, Bi,
          Cover            \* "" (random) | "un" | "bin" | "forms"

VARIABLES nodes, envr, envz, stack, prog, ph, fin, init
vars == <<nodes, envr, envz, stack, prog, ph, fin, init>>

In(k) == [op |-> "in", a |-> <<>>, act |-> <<>>, kind |-> "", k |-> k]
Par(kind) == [op |-> "par", a |-> <<>>, act |-> <<>>, kind |-> kind, k |-> 0]
Node(op, a, act) == [op |-> op, a |-> a, act |-> act, kind |-> "", k |-> 0]

\* operand: node, text, kind, active.  Kinds: z complex, zc passive complex, r real variable or value,
\* e real expression, d number, i signed and u unsigned integers
Ent(n, t, k, ad) == [n |-> n, t |-> t, k |-> k, ad |-> ad]

NX == NR + 2 * NZ
WN(j) == NX + j
Ins == [k \in 1 .. NX + NZ |-> IF k <= NX THEN In(k)
                               ELSE Node("zcplx", <<NR + 2 * (k - NX) - 1, NR + 2 * (k - NX)>>, <<TRUE, TRUE>>)]
EnvR0 == [k \in 1 .. NR |-> k]
EnvZ0 == [k \in 1 .. NZ |-> WN(k)]

TypeInv ==
  /\ \A i \in DOMAIN nodes : \A j \in DOMAIN nodes[i].a : nodes[i].a[j] < i
  /\ \A v \in DOMAIN envr : envr[v] \in DOMAIN nodes
  /\ \A v \in DOMAIN envz : envz[v] \in DOMAIN nodes
  /\ \A i \in DOMAIN nodes : nodes[i].op \in Ops \cup COps => nodes[i].act \in Patterns(nodes[i].op)

Real == {"r", "e"}
Ints == {"i", "u"}
\* which operand kinds an operation is provided for
Provided(f, a, b) ==
  CASE f \in CArith -> \/ a = "z" /\ b \in {"z", "zc", "r", "e", "d"}
                       \/ a \in {"zc", "r", "e", "d"} /\ b = "z"
                       \/ a = "zc" /\ b \in Real
                       \/ a \in Real /\ b = "zc"
    [] f = "zpow" -> (a = "z" /\ b \in {"z", "zc", "r", "e", "d"}) \/ (a = "zc" /\ b = "z")
    [] f = "zpown" -> a = "z" /\ b \in Ints
    [] f = "rpow" -> a \in Real \cup Ints \cup {"d"} /\ b = "z"
    [] f = "zpolar" -> a \in {"r", "e", "d"} /\ b \in {"r", "e", "d"} /\ ~(a = "d" /\ b = "d")
    [] f \in {"zeq", "zne"} -> (a = "z" /\ b \in {"z", "r", "e", "d"}) \/ (a \in {"r", "e", "d"} /\ b = "z")
    [] f = "zcplx" -> a \in {"r", "e", "d", "i"} /\ b \in {"r", "e", "d", "i"} /\ ~(a \in {"d", "i"} /\ b \in {"d", "i"})
    [] OTHER -> FALSE
\* kind of the result
Result(f) == IF f \in {"zre", "zim", "znorm", "zabs", "zarg", "zeq", "zne", "rim", "rarg", "rre", "rconjr"} THEN "r"
             ELSE IF f = "rnorm" THEN "e" ELSE "z"
RealArg == {"zcplx1", "rproj", "rconj", "rre", "rim", "rnorm", "rarg", "zpolar1"}

Top(i) == stack[Len(stack) - i]
Pop(n) == SubSeq(stack, 1, Len(stack) - n)

\* ------------------------------------------------------------- steps of random programs
Leaf(zs) == /\ IF zs THEN \E v \in DOMAIN envz : stack' = Append(stack, Ent(envz[v], <<"w", v>>, "z", TRUE))
               ELSE \E v \in DOMAIN envr : stack' = Append(stack, Ent(envr[v], <<"v", v>>, "r", TRUE))
            /\ UNCHANGED <<nodes, envr, envz, prog, fin>>
\* parts of a variable
Part == /\ \E v \in DOMAIN envz, f \in {"zre", "zim"} :
             /\ nodes' = Append(nodes, Node(f, <<envz[v]>>, <<TRUE>>))
             /\ stack' = Append(stack, Ent(Len(nodes) + 1, <<IF f = "zre" THEN "zre." ELSE "zim.", <<"w", v>> >>, "r", TRUE))
        /\ UNCHANGED <<envr, envz, prog, fin>>
Lit == /\ \/ /\ nodes' = Append(nodes, Par("b"))
             /\ stack' = Append(stack, Ent(Len(nodes) + 1, <<"p", Len(nodes) + 1, "b">>, "d", FALSE))
          \/ /\ nodes' = nodes \o << Par("b"), Par("b"), Node("zcplx", <<Len(nodes) + 1, Len(nodes) + 2>>, <<FALSE, FALSE>>) >>
             /\ stack' = Append(stack, Ent(Len(nodes) + 3, <<"pc", Len(nodes) + 1, Len(nodes) + 2>>, "zc", FALSE))
       /\ UNCHANGED <<envr, envz, prog, fin>>
AppU == /\ \E f \in Un :
             /\ (f \in RealArg) = (Top(0).k \in Real)
             /\ nodes' = Append(nodes, Node(f, <<Top(0).n>>, <<TRUE>>))
             /\ stack' = Append(Pop(1), Ent(Len(nodes) + 1, <<f, Top(0).t>>, Result(f), TRUE))
        /\ UNCHANGED <<envr, envz, prog, fin>>
RealUn == {"neg", "sin", "exp", "atan"}
AppR == /\ \E f \in RealUn :
             /\ nodes' = Append(nodes, Node(f, <<Top(0).n>>, <<TRUE>>))
             /\ stack' = Append(Pop(1), Ent(Len(nodes) + 1, <<f, Top(0).t>>, "e", TRUE))
        /\ UNCHANGED <<envr, envz, prog, fin>>
Usable(a, b) == {f \in Bi \cup Arith : IF f \in Arith THEN a.k \in Real /\ b.k \in Real \cup {"d"} ELSE Provided(f, a.k, b.k)}
AppB == /\ \E f \in Usable(Top(1), Top(0)) :
             /\ nodes' = Append(nodes, Node(f, <<Top(1).n, Top(0).n>>, <<Top(1).ad, Top(0).ad>>))
             /\ stack' = Append(Pop(2), Ent(Len(nodes) + 1, <<f, Top(1).t, Top(0).t>>, IF f \in Arith THEN "e" ELSE Result(f), TRUE))
        /\ UNCHANGED <<envr, envz, prog, fin>>
S(s, v, o, e) == [s |-> s, v |-> v, o |-> o, e |-> e]
\* a value of any kind initialises or is assigned to a complex variable
Lifted == IF Top(0).k \in {"z", "zc"} THEN Top(0).n ELSE Len(nodes) + 1
LiftNodes == IF Top(0).k \in {"z", "zc"} THEN nodes
             ELSE nodes \o <<Node(IF Top(0).ad THEN "zcplx1" ELSE "zlit", <<Top(0).n>>, <<Top(0).ad>>)>>
DeclZ == /\ \E o \in {"(", "="} : prog' = Append(prog, S("declz", Len(envz) + 1, o, Top(0).t))
         /\ nodes' = LiftNodes
         /\ envz' = Append(envz, Lifted)
         /\ stack' = <<>> /\ UNCHANGED <<envr, fin>>
DeclR == /\ prog' = Append(prog, S("declr", Len(envr) + 1, "=", Top(0).t))
         /\ envr' = Append(envr, Top(0).n)
         /\ stack' = <<>> /\ UNCHANGED <<nodes, envz, fin>>
AsgZ == /\ \E v \in DOMAIN envz : /\ prog' = Append(prog, S("asgz", v, "", Top(0).t))
                                  /\ envz' = [envz EXCEPT ![v] = Lifted]
        /\ nodes' = LiftNodes
        /\ stack' = <<>> /\ UNCHANGED <<envr, fin>>
AsgR == /\ \E v \in DOMAIN envr : /\ prog' = Append(prog, S("asgr", v, "", Top(0).t))
                                  /\ envr' = [envr EXCEPT ![v] = Top(0).n]
        /\ stack' = <<>> /\ UNCHANGED <<nodes, envz, fin>>
CmpZ == /\ \E v \in DOMAIN envz, f \in CArith :
             /\ prog' = Append(prog, S("cmpz", v, f, Top(0).t))
             /\ nodes' = Append(nodes, Node(f, <<envz[v], Top(0).n>>, <<TRUE, Top(0).ad>>))
             /\ envz' = [envz EXCEPT ![v] = Len(nodes) + 1]
        /\ stack' = <<>> /\ UNCHANGED <<envr, fin>>
SetZ == /\ \E v \in DOMAIN envz, f \in {"zsetre", "zsetim"}, o \in {"fn", "ref"} :
             /\ prog' = Append(prog, S(f, v, o, Top(0).t))
             /\ nodes' = Append(nodes, Node(f, <<envz[v], Top(0).n>>, <<TRUE, Top(0).ad>>))
             /\ envz' = [envz EXCEPT ![v] = Len(nodes) + 1]
        /\ stack' = <<>> /\ UNCHANGED <<envr, fin>>
End == /\ fin' = TRUE /\ UNCHANGED <<nodes, envr, envz, stack, prog>>

Full == Len(prog) >= MaxStm \/ Len(nodes) >= MaxNodes
Able(c) ==
  CASE c \in {"leafz", "leafr", "part"} -> Len(stack) < MaxStack /\ ~Full
    [] c = "lit" -> Len(stack) < MaxStack /\ ~Full /\ (Len(stack) > 0 => Top(0).ad)
    [] c = "un" -> Len(stack) >= 1 /\ ~Full /\ Top(0).k \in {"z", "r", "e"}
    [] c = "unr" -> Len(stack) >= 1 /\ ~Full /\ Top(0).k \in Real
    [] c = "bi" -> Len(stack) >= 2 /\ Usable(Top(1), Top(0)) # {}
    [] c = "declz" -> Len(stack) = 1 /\ Len(envz) < MaxVars
    [] c = "declr" -> Len(stack) = 1 /\ Len(envr) < MaxVars /\ Top(0).k \in Real
    [] c \in {"asgz", "cmpz"} -> Len(stack) = 1
    [] c = "asgr" -> Len(stack) = 1 /\ Top(0).k \in Real
    [] c = "setz" -> Len(stack) = 1 /\ Top(0).k \in Real \cup {"d"}
    \* two operands that cannot be combined: start the statement again
    [] c = "drop" -> Len(stack) >= 2 /\ Usable(Top(1), Top(0)) = {}
    [] c = "end" -> stack = <<>> /\ Full
Choose == /\ ph = 0 /\ ~fin
          /\ ph' \in {w \in DOMAIN Weights : Able(Weights[w])}
          /\ UNCHANGED <<nodes, envr, envz, stack, prog, fin>>
Act == /\ ph # 0 /\ ~fin
       /\ ph' = 0
       /\ LET c == Weights[ph]
          IN CASE c = "leafz" -> Leaf(TRUE) [] c = "leafr" -> Leaf(FALSE) [] c = "part" -> Part [] c = "lit" -> Lit
               [] c = "un" -> AppU [] c = "unr" -> AppR [] c = "bi" -> AppB
               [] c = "declz" -> DeclZ [] c = "declr" -> DeclR [] c = "asgz" -> AsgZ [] c = "asgr" -> AsgR
               [] c = "cmpz" -> CmpZ [] c = "setz" -> SetZ
               [] c = "drop" -> stack' = Pop(1) /\ UNCHANGED <<nodes, envr, envz, prog, fin>>
               [] c = "end" -> End

\* ------------------------------------------------------------- exhaustive single operations
IntKinds == {"i", "sh", "l", "ll", "u", "us", "ul", "ull"}
OpEnt(kd, j, base) ==
  LET w == <<"w", j>>
      w1 == <<"w", 1>>
      x == <<"v", j>>
  IN CASE kd = "z" -> [nn |-> <<>>, ent |-> Ent(WN(j), w, "z", TRUE)]
       [] kd = "zt" -> [nn |-> <<Node("zneg", <<WN(j)>>, <<TRUE>>)>>, ent |-> Ent(base + 1, <<"zneg", w>>, "z", TRUE)]
       [] kd = "zp" -> [nn |-> <<Node("zpos", <<WN(j)>>, <<TRUE>>)>>, ent |-> Ent(base + 1, <<"zpos", w>>, "z", TRUE)]
       [] kd = "zc" -> [nn |-> <<Par("b"), Par("b"), Node("zcplx", <<base + 1, base + 2>>, <<FALSE, FALSE>>)>>,
                        ent |-> Ent(base + 3, <<"pc", base + 1, base + 2>>, "zc", FALSE)]
       [] kd = "r" -> [nn |-> <<>>, ent |-> Ent(j, x, "r", TRUE)]
       [] kd = "e" -> [nn |-> <<Node("neg", <<j>>, <<TRUE>>)>>, ent |-> Ent(base + 1, <<"neg", x>>, "e", TRUE)]
       [] kd = "eb" -> [nn |-> <<Node("add", <<j, j>>, <<TRUE, TRUE>>)>>, ent |-> Ent(base + 1, <<"add", x, x>>, "e", TRUE)]
       [] kd = "d" -> [nn |-> <<Par("b")>>, ent |-> Ent(base + 1, <<"p", base + 1, "b">>, "d", FALSE)]
       [] kd \in IntKinds -> LET s == kd \in {"i", "sh", "l", "ll"}
                             IN [nn |-> <<Par(IF kd = "sh" THEN "s" ELSE IF s THEN "i" ELSE "u")>>,
                                 ent |-> Ent(base + 1, <<"p", base + 1, kd>>, IF s THEN "i" ELSE "u", FALSE)]
       [] kd = "zs" -> [nn |-> <<>>, ent |-> Ent(WN(1), w1, "z", TRUE)]
       [] kd = "rs" -> [nn |-> <<Node("zre", <<WN(1)>>, <<TRUE>>)>>, ent |-> Ent(base + 1, <<"zre.", w1>>, "r", TRUE)]
       [] kd = "is" -> [nn |-> <<Node("zim", <<WN(1)>>, <<TRUE>>)>>, ent |-> Ent(base + 1, <<"zim.", w1>>, "r", TRUE)]
       [] kd = "res" -> [nn |-> <<Node("zre", <<WN(1)>>, <<TRUE>>), Node("zim", <<WN(1)>>, <<TRUE>>),
                                  Node("mul", <<base + 1, base + 2>>, <<TRUE, TRUE>>)>>,
                         ent |-> Ent(base + 3, <<"mul", <<"zre.", w1>>, <<"zim.", w1>> >>, "e", TRUE)]
Kinds1 == {"z", "zt", "zp", "zc", "r", "e", "eb", "d"} \cup IntKinds
Kinds2 == Kinds1 \cup {"zs", "rs", "is", "res"}
\* the kinds of integers are only told apart by pow
Shown(f, k) == k \in {"sh", "l", "ll", "us", "ul", "ull"} => f \in {"zpown", "rpow"}
NewVar(nn, e, text, kind) ==
  /\ nodes = nn
  /\ envz = IF kind = "z" THEN Append(EnvZ0, e) ELSE EnvZ0
  /\ envr = IF kind = "z" THEN EnvR0 ELSE Append(EnvR0, e)
CoverUn ==
  \E f \in Un, kd \in {"z", "zt", "r", "e", "eb", "rs"}, o \in {"(", "="} :
    LET a == OpEnt(kd, 1, Len(Ins))
        nn == Append(Ins \o a.nn, Node(f, <<a.ent.n>>, <<TRUE>>))
    IN /\ (f \in RealArg) = (a.ent.k \in Real)
       /\ (Result(f) # "z") => o = "="
       /\ f = "zcplx1" => o = "="
       /\ NewVar(nn, Len(nn), <<f>>, IF Result(f) = "z" THEN "z" ELSE "r")
       /\ prog = <<IF Result(f) = "z" THEN S("declz", NZ + 1, o, <<f, a.ent.t>>) ELSE S("declr", NR + 1, o, <<f, a.ent.t>>)>>
       /\ init = <<f, kd>>
CoverBin ==
  \E f \in Bi, k1 \in Kinds1, k2 \in Kinds2 :
    LET a == OpEnt(k1, 1, Len(Ins))
        b == OpEnt(k2, 2, Len(Ins) + Len(a.nn))
        nn == Append(Ins \o a.nn \o b.nn, Node(f, <<a.ent.n, b.ent.n>>, <<a.ent.ad, b.ent.ad>>))
    IN /\ Shown(f, k1) /\ Shown(f, k2)
       /\ Provided(f, a.ent.k, b.ent.k)
       /\ k2 \in {"zs", "rs", "is", "res"} => k1 \in {"z", "zt", "zp"}
       /\ NewVar(nn, Len(nn), <<f>>, IF Result(f) = "z" THEN "z" ELSE "r")
       /\ prog = <<IF Result(f) = "z" THEN S("declz", NZ + 1, "=", <<f, a.ent.t, b.ent.t>>)
                                      ELSE S("declr", NR + 1, "=", <<f, a.ent.t, b.ent.t>>)>>
       /\ init = <<f, k1, k2>>
\* statement forms: the first complex variable is the target
CoverForms ==
  \E form \in {"declz", "asgz", "cmpz", "zsetre", "zsetim"}, kd \in Kinds2, f \in CArith, o \in {"(", "=", "fn", "ref"} :
    LET a == OpEnt(kd, 2, Len(Ins))
        nn == Ins \o a.nn
        k == a.ent.k
        up == IF k \in {"z", "zc"} THEN nn ELSE Append(nn, Node(IF a.ent.ad THEN "zcplx1" ELSE "zlit", <<a.ent.n>>, <<a.ent.ad>>))
        cn == Append(nn, Node(f, <<WN(1), a.ent.n>>, <<TRUE, a.ent.ad>>))
        sn == Append(nn, Node(form, <<WN(1), a.ent.n>>, <<TRUE, a.ent.ad>>))
        lv == IF k \in {"z", "zc"} THEN a.ent.n ELSE Len(up)
    IN /\ kd \in IntKinds => kd \in {"i", "u"}
       /\ form # "cmpz" => f = "zadd"
       /\ form = "declz" => o \in {"(", "="}
       /\ form \in {"asgz", "cmpz"} => o = "="
       /\ form \in {"zsetre", "zsetim"} => o \in {"fn", "ref"} /\ k \in Real \cup {"d", "i"}
       /\ nodes = CASE form \in {"declz", "asgz"} -> up [] form = "cmpz" -> cn [] OTHER -> sn
       /\ envz = CASE form = "declz" -> Append(EnvZ0, lv)
                   [] form = "asgz" -> [EnvZ0 EXCEPT ![1] = lv]
                   [] form = "cmpz" -> [EnvZ0 EXCEPT ![1] = Len(cn)]
                   [] OTHER -> [EnvZ0 EXCEPT ![1] = Len(sn)]
       /\ envr = EnvR0
       /\ prog = <<S(form, IF form = "declz" THEN NZ + 1 ELSE 1, IF form = "cmpz" THEN f ELSE o, a.ent.t)>>
       /\ init = <<form, kd, f>>

Init == /\ CASE Cover = "un" -> CoverUn
             [] Cover = "bin" -> CoverBin
             [] Cover = "forms" -> CoverForms
             [] OTHER -> nodes = Ins /\ envr = EnvR0 /\ envz = EnvZ0 /\ prog = <<>> /\ init = <<>>
        /\ stack = <<>> /\ ph = 0 /\ fin = FALSE
Next == /\ UNCHANGED init
        /\ IF Cover # "" THEN ph = 0 /\ ph' = 1 /\ End ELSE (Choose \/ Act)
Spec == Init /\ [][Next]_vars

\* values observed at the end: real variables, then real and imaginary parts of the complex ones
OutNodes == [k \in 1 .. 2 * Len(envz) |-> Node(IF k % 2 = 1 THEN "zre" ELSE "zim", <<envz[(k + 1) \div 2]>>, <<TRUE>>)]
Emit == fin' => PrintT("@@" \o ToJson([nodes |-> nodes \o OutNodes,
                                      env |-> envr \o [k \in 1 .. Len(OutNodes) |-> Len(nodes) + k],
                                      nr |-> NR, nz |-> NZ, wr |-> Len(envr), wz |-> Len(envz),
                                      prog |-> prog, ni |-> NX, tag |-> init]))
=============================================================================
