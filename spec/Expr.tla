-------------------------------- MODULE Expr --------------------------------
(***************************************************************************)
(* Programs over active variables, and what they compute.                  *)
(*                                                                         *)
(* A behaviour builds one program, operand by operand (an operand stack)    *)
(* and statement by statement, together with its meaning: nodes is the      *)
(* single-assignment form of every value computed so far, env maps each      *)
(* program variable to the node holding its current value.  How the text is   *)
(* split into statements, which subexpressions are stored with auto, how       *)
(* operands are aliased or updated in place only shows in prog; the values      *)
(* and (with the rules of Sym) all derivatives are determined by nodes.          *)
(***************************************************************************)
EXTENDS Sym, TLC, Json

CONSTANTS NI,        \* number of independent variables
          MaxStm, MaxNodes, MaxStack, MaxVars,
          Weights,   \* sequence of step categories; a step is drawn from it
          Un, Bi, Tri, LitKinds,
          Cover      \* "" | "ops" | "forms" | "numbers" | "pairs": exhaustive single-statement programs

VARIABLES nodes, env, stack, autos, prog, ph, fin, init
vars == <<nodes, env, stack, autos, prog, ph, fin, init>>

\* ------------------------------------------------------------- operands
In(k) == [op |-> "in", a |-> <<>>, act |-> <<>>, kind |-> "", k |-> k]
Par(kind) == [op |-> "par", a |-> <<>>, act |-> <<>>, kind |-> kind, k |-> 0]
Node(op, a, act) == [op |-> op, a |-> a, act |-> act, kind |-> "", k |-> 0]

\* a stack entry: node, program text, is it of an active type, the variables it
\* refers to, whether it holds a temporary variable (must not outlive the statement)
Ent(n, t, ad, caps, tmp) == [n |-> n, t |-> t, ad |-> ad, caps |-> caps, tmp |-> tmp]

TypeInv ==
  /\ \A i \in DOMAIN nodes : \A j \in DOMAIN nodes[i].a : nodes[i].a[j] < i      \* single assignment, acyclic
  /\ \A v \in DOMAIN env : env[v] \in DOMAIN nodes
  /\ \A i \in DOMAIN nodes : nodes[i].op \in Ops => nodes[i].act \in Patterns(nodes[i].op)

\* stored expressions must not outlive a change of a variable they refer to
Captures == \A i \in DOMAIN autos : autos[i].caps \subseteq DOMAIN env

Top(i) == stack[Len(stack) - i]
Pop(n) == SubSeq(stack, 1, Len(stack) - n)
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

\* max(T, T) and min(T, T) take one type: a number of another type becomes a temporary variable
Converted(ent) == ~ent.ad /\ ent.t[3] # "b"

\* ------------------------------------------------------------- program steps
Leaf == \/ /\ Len(stack) < MaxStack
           /\ \E v \in DOMAIN env :
                stack' = Append(stack, Ent(env[v], <<"v", v>>, TRUE, {v}, FALSE))
           /\ UNCHANGED <<nodes, env, autos, prog, fin>>
        \/ /\ Len(stack) < MaxStack
           /\ \E i \in DOMAIN autos :
                /\ autos[i].live
                /\ stack' = Append(stack, Ent(autos[i].n, <<"a", i>>, TRUE, autos[i].caps, FALSE))
           /\ UNCHANGED <<nodes, env, autos, prog, fin>>
Lit == /\ Len(stack) < MaxStack
       /\ Len(stack) > 0 => Top(0).ad
       /\ \E kd \in LitKinds :
            /\ nodes' = Append(nodes, Par(kd))
            /\ stack' = Append(stack, Ent(Len(nodes) + 1, <<"p", Len(nodes) + 1, kd>>, FALSE, {}, FALSE))
       /\ UNCHANGED <<env, autos, prog, fin>>
App1 == /\ Len(stack) >= 1 /\ Top(0).ad
        /\ Len(nodes) < MaxNodes
        /\ \E f \in Un :
             /\ nodes' = Append(nodes, Node(f, <<Top(0).n>>, <<TRUE>>))
             /\ stack' = Append(Pop(1), Ent(Len(nodes) + 1, <<f, Top(0).t>>, TRUE, Top(0).caps, Top(0).tmp))
        /\ UNCHANGED <<env, autos, prog, fin>>
AppInt == /\ Len(stack) >= 1 /\ Top(0).ad
          /\ Len(nodes) < MaxNodes
          /\ \E f \in IntArg :
               /\ nodes' = nodes \o << Par("i"), Node(f, <<Top(0).n, Len(nodes) + 1>>, <<TRUE, FALSE>>) >>
               /\ stack' = Append(Pop(1), Ent(Len(nodes) + 2, <<f, Top(0).t, <<"p", Len(nodes) + 1, "i">> >>, TRUE,
                                              Top(0).caps, Top(0).tmp \/ f = "scalbn"))
          /\ UNCHANGED <<env, autos, prog, fin>>
App2 == /\ Len(stack) >= 2 /\ (Top(0).ad \/ Top(1).ad)
        /\ Len(nodes) < MaxNodes + 2
        /\ \E f \in Bi :
             /\ f = "copysign" => Top(1).ad
             /\ nodes' = Append(nodes, Node(f, <<Top(1).n, Top(0).n>>, <<Top(1).ad, Top(0).ad>>))
             /\ stack' = Append(Pop(2), Ent(Len(nodes) + 1, <<f, Top(1).t, Top(0).t>>, TRUE,
                                            Top(0).caps \cup Top(1).caps,
                                            Top(0).tmp \/ Top(1).tmp \/ f = "copysign"
                                              \/ (f \in {"max", "min"} /\ (Converted(Top(0)) \/ Converted(Top(1))))))
        /\ UNCHANGED <<env, autos, prog, fin>>
App3 == /\ Len(stack) >= 3 /\ (Top(0).ad \/ Top(1).ad \/ Top(2).ad)
        /\ Len(nodes) < MaxNodes
        /\ \E f \in Tri :
             /\ nodes' = Append(nodes, Node(f, <<Top(2).n, Top(1).n, Top(0).n>>, <<Top(2).ad, Top(1).ad, Top(0).ad>>))
             /\ stack' = Append(Pop(3), Ent(Len(nodes) + 1, <<f, Top(2).t, Top(1).t, Top(0).t>>, TRUE,
                                            Top(0).caps \cup Top(1).caps \cup Top(2).caps,
                                            Top(0).tmp \/ Top(1).tmp \/ Top(2).tmp))
        /\ UNCHANGED <<env, autos, prog, fin>>

\* changing v invalidates stored expressions that refer to it
Drop(v) == [i \in DOMAIN autos |-> IF v \in autos[i].caps THEN [autos[i] EXCEPT !.live = FALSE] ELSE autos[i]]

Decl == /\ Len(stack) = 1 /\ Len(env) < MaxVars
        /\ \E style \in {"(", "=", "{"} :
             /\ (style = "{" /\ Top(0).t[1] = "p") => Top(0).t[3] = "b"      \* no narrowing
             /\ prog' = Append(prog, [s |-> "decl", v |-> Len(env) + 1, o |-> style, e |-> Top(0).t])
        /\ env' = Append(env, Top(0).n)
        /\ stack' = <<>>
        /\ UNCHANGED <<nodes, autos, fin>>
Assign == /\ Len(stack) = 1
          /\ \E v \in DOMAIN env :
               /\ prog' = Append(prog, [s |-> "asg", v |-> v, o |-> "", e |-> Top(0).t])
               /\ env' = [env EXCEPT ![v] = Top(0).n]
               /\ autos' = Drop(v)
          /\ stack' = <<>>
          /\ UNCHANGED <<nodes, fin>>
Comp == /\ Len(stack) = 1
        /\ \E v \in DOMAIN env, f \in Arith :
             /\ nodes' = Append(nodes, Node(f, <<env[v], Top(0).n>>, <<TRUE, Top(0).ad>>))
             /\ prog' = Append(prog, [s |-> "cmp", v |-> v, o |-> f, e |-> Top(0).t])
             /\ env' = [env EXCEPT ![v] = Len(nodes) + 1]
             /\ autos' = Drop(v)
        /\ stack' = <<>>
        /\ UNCHANGED fin
Auto == /\ Len(stack) = 1 /\ Top(0).ad /\ ~Top(0).tmp /\ Top(0).t[1] \notin {"v", "a"}
        /\ \E o \in {"auto", "const auto&&"} :
             prog' = Append(prog, [s |-> "auto", v |-> Len(autos) + 1, o |-> o, e |-> Top(0).t])
        /\ autos' = Append(autos, [n |-> Top(0).n, caps |-> Top(0).caps, live |-> TRUE])
        /\ stack' = <<>>
        /\ UNCHANGED <<nodes, env, fin>>
Inc == /\ stack = <<>>
       /\ \E v \in DOMAIN env, f \in {"add", "sub"}, form \in {"pre", "post", "declpre", "declpost"} :
            /\ form \in {"declpre", "declpost"} => Len(env) < MaxVars
            /\ nodes' = nodes \o << Par("one"), Node(f, <<env[v], Len(nodes) + 1>>, <<TRUE, FALSE>>) >>
            /\ prog' = Append(prog, [s |-> "inc", v |-> v, o |-> form, e |-> <<f, IF form \in {"declpre", "declpost"}
                                                                               THEN Len(env) + 1 ELSE 0>>])
            /\ env' = CASE form = "declpre" -> Append([env EXCEPT ![v] = Len(nodes) + 2], Len(nodes) + 2)
                        [] form = "declpost" -> Append([env EXCEPT ![v] = Len(nodes) + 2], env[v])
                        [] OTHER -> [env EXCEPT ![v] = Len(nodes) + 2]
            /\ autos' = Drop(v)
       /\ UNCHANGED <<stack, fin>>
End == /\ stack = <<>> /\ Len(prog) > 0
       /\ fin' = TRUE
       /\ UNCHANGED <<nodes, env, stack, autos, prog>>

\* ------------------------------------------------------------- drawing steps
Full == Len(prog) >= MaxStm \/ Len(nodes) >= MaxNodes
Able(c) ==
  CASE c = "leaf" -> Len(stack) < MaxStack /\ ~Full
    [] c = "lit" -> Len(stack) < MaxStack /\ ~Full /\ (Len(stack) > 0 => Top(0).ad)
    [] c \in {"un", "int"} -> Len(stack) >= 1 /\ ~Full /\ Top(0).ad
    [] c = "bi" -> Len(stack) >= 2 /\ (Top(0).ad \/ Top(1).ad)
    [] c = "tri" -> Len(stack) >= 3 /\ ~Full /\ (Top(0).ad \/ Top(1).ad \/ Top(2).ad)
    [] c = "decl" -> Len(stack) = 1 /\ Len(env) < MaxVars
    [] c \in {"asg", "cmp"} -> Len(stack) = 1
    [] c = "auto" -> Len(stack) = 1 /\ Top(0).ad /\ ~Top(0).tmp /\ Top(0).t[1] \notin {"v", "a"}
    [] c = "inc" -> stack = <<>> /\ ~Full
    [] c = "end" -> stack = <<>> /\ Full
Choose == /\ ph = 0 /\ ~fin
          /\ ph' \in {w \in DOMAIN Weights : Able(Weights[w])}
          /\ UNCHANGED <<nodes, env, stack, autos, prog, fin>>
Act == /\ ph # 0 /\ ~fin
       /\ ph' = 0
       /\ LET c == Weights[ph]
          IN CASE c = "leaf" -> Leaf
               [] c = "lit" -> Lit
               [] c = "un" -> App1
               [] c = "int" -> AppInt
               [] c = "bi" -> App2
               [] c = "tri" -> App3
               [] c = "decl" -> Decl
               [] c = "asg" -> Assign
               [] c = "cmp" -> Comp
               [] c = "auto" -> Auto
               [] c = "inc" -> Inc
               [] c = "end" -> End

\* ------------------------------------------------------------- exhaustive single operations
\* operand forms: a variable, an expression, each kind of passive number
OpKind == {"l", "e"} \cup LitKinds
\* operand number j of an operation: nodes added, entry
OpEnt(kd, j, base) ==
  CASE kd = "l" -> [nn |-> <<>>, ent |-> Ent(j, <<"v", j>>, TRUE, {j}, FALSE)]
    [] kd = "e" -> [nn |-> <<Node("neg", <<j>>, <<TRUE>>)>>,
                    ent |-> Ent(base + 1, <<"neg", <<"v", j>> >>, TRUE, {j}, FALSE)]
    [] OTHER -> [nn |-> <<Par(kd)>>, ent |-> Ent(base + 1, <<"p", base + 1, kd>>, FALSE, {}, FALSE)]
KindsOf(f) ==
  {ks \in [1 .. Arity(f) -> OpKind \cup {"same"}] :
     /\ ks[1] # "same"
     /\ \E k \in DOMAIN ks : ks[k] \in {"l", "e"}
     /\ \A k \in DOMAIN ks : ks[k] = "same" => ks[1] \in {"l", "e"}
     /\ f \in IntArg => ks[2] = "i"
     /\ f = "copysign" => ks[1] \in {"l", "e"}
     /\ Arity(f) = 3 => Cardinality({k \in DOMAIN ks : ks[k] \in LitKinds}) # 1 \/ "d" \in {ks[k] : k \in DOMAIN ks}
     \* numbers combined with each other before any active operand follow the rules of C++, not of the library
     /\ Arity(f) = 3 => /\ \A k \in DOMAIN ks : ks[k] # "same" /\ ks[k] # "b"
                        /\ (ks[1] \in LitKinds /\ ks[2] \in LitKinds) => ks[1] = "d" /\ ks[2] = "d"}
Ins == [k \in 1 .. NI |-> In(k)]
MakeOp(f, ks) ==
  LET o1 == OpEnt(ks[1], 1, NI)
      b1 == NI + Len(o1.nn)
      o2 == IF Len(ks) < 2 THEN o1 ELSE IF ks[2] = "same" THEN [o1 EXCEPT !.nn = <<>>] ELSE OpEnt(ks[2], 2, b1)
      n2 == IF Len(ks) < 2 THEN <<>> ELSE o2.nn
      b2 == b1 + Len(n2)
      o3 == IF Len(ks) < 3 THEN o1 ELSE OpEnt(ks[3], 3, b2)
      n3 == IF Len(ks) < 3 THEN <<>> ELSE o3.nn
      es == SubSeq(<<o1.ent, o2.ent, o3.ent>>, 1, Len(ks))
      all == Ins \o o1.nn \o n2 \o n3
  IN [nodes |-> Append(all, Node(f, [k \in DOMAIN es |-> es[k].n], [k \in DOMAIN es |-> es[k].ad])),
      text |-> <<f>> \o [k \in DOMAIN es |-> es[k].t]]
CoverOps ==
  \E f \in Un \cup Bi \cup Tri \cup IntArg : \E ks \in KindsOf(f) :
    LET m == MakeOp(f, ks)
    IN /\ nodes = m.nodes
       /\ env = [k \in 1 .. NI + 1 |-> IF k <= NI THEN k ELSE Len(m.nodes)]
       /\ prog = <<[s |-> "decl", v |-> NI + 1, o |-> "(", e |-> m.text]>>
       /\ init = <<f>> \o ks
\* every two-operand operation with one number of every kind, on either side
CoverNumbers ==
  \E f \in Bi, kd \in LitKinds, o \in {"l", "e"}, side \in {1, 2} :
    LET ks == IF side = 1 THEN <<kd, o>> ELSE <<o, kd>>
        m == MakeOp(f, ks)
    IN /\ f = "copysign" => side = 2
       /\ nodes = m.nodes
       /\ env = [k \in 1 .. NI + 1 |-> IF k <= NI THEN k ELSE Len(m.nodes)]
       /\ prog = <<[s |-> "decl", v |-> NI + 1, o |-> "(", e |-> m.text]>>
       /\ init = <<f>> \o ks
\* Points at which an operation is always evaluated: operand values (a rational <<n, d>> each).
\* Special points count where the operation is differentiable, kink points always (conventions apply).
V(n) == <<n, 1>>
H(n) == <<n, 2>>
Vals == {V(-2), V(-1), V(0), V(1), V(2), H(1), H(-3)}
Special(f, ks) == {o \in [DOMAIN ks -> Vals] : \A k \in DOMAIN ks : ks[k] = "i" => o[k][2] = 1}
Kinks(f, ks) ==
  CASE f \in {"abs", "fabs", "smooth_abs1", "modf", "modfx"} -> {<<V(0)>>}
    [] f \in {"max", "min", "fmax", "fmin"} -> {<<V(v), V(v)>> : v \in -1 .. 2}
    [] f \in {"floor", "ceil", "trunc", "round"} -> {<<V(v)>> : v \in -2 .. 2} \cup {<<H(v)>> : v \in {-3, -1, 1, 3, 5}}
    [] f = "pow" /\ ks[2] \in LitKinds -> {<<V(0), V(v)>> : v \in 0 .. 3} \cup {<<V(v), V(w)>> : v \in {-2, 1}, w \in 0 .. 3}
    [] f = "pow" /\ ks[1] \in LitKinds -> {<<V(0), V(1)>>, <<V(0), V(2)>>, <<V(1), V(0)>>, <<V(1), V(-1)>>}
    [] f = "pow" -> {<<V(0), V(2)>>, <<V(0), V(3)>>}
    [] f = "pown" -> {<<V(0), V(v)>> : v \in 0 .. 3}
    [] f = "smooth_abs" -> {<<V(0), V(1)>>, <<V(1), V(1)>>, <<V(-1), V(1)>>, <<V(-2), V(2)>>}
    [] f \in {"smooth_max", "smooth_min"} -> {<<V(1), V(1), V(1)>>, <<V(2), V(1), V(1)>>, <<V(-1), V(1), V(2)>>}
    [] OTHER -> {}

\* operations that report through a pointer, two of them sharing it, inline and stored
Reporting == {"frexp", "modf", "modfx"}
CoverPairs ==
  \E g \in Reporting, h \in Reporting, stored \in {"no", "one", "both"} :
    LET g1 == <<g, <<"v", 1>> >>
        h1 == <<h, <<"v", 2>> >>
    IN /\ nodes = Ins \o << Node(g, <<1>>, <<TRUE>>), Node(h, <<2>>, <<TRUE>>),
                            Node("mul", <<NI + 1, NI + 2>>, <<TRUE, TRUE>>) >>
       /\ env = [k \in 1 .. NI + 1 |-> IF k <= NI THEN k ELSE NI + 3]
       /\ prog = (IF stored = "no" THEN <<>> ELSE <<[s |-> "auto", v |-> 1, o |-> "auto", e |-> g1]>>)
                 \o (IF stored = "both" THEN <<[s |-> "auto", v |-> 2, o |-> "auto", e |-> h1]>> ELSE <<>>)
                 \o <<[s |-> "decl", v |-> NI + 1, o |-> "=",
                      e |-> <<"mul", IF stored = "no" THEN g1 ELSE <<"a", 1>>, IF stored = "both" THEN <<"a", 2>> ELSE h1>>]>>
       /\ init = <<"pairs">>
\* every statement form with every kind of right-hand side
CoverForms ==
  \E form \in {"decl", "asg", "cmp"}, kd \in OpKind \cup {"self", "selfe"}, f \in Arith, style \in {"(", "=", "{"} :
    LET j == IF kd \in {"self", "selfe"} THEN 1 ELSE 2
        o == OpEnt(IF kd = "self" THEN "l" ELSE IF kd = "selfe" THEN "e" ELSE kd, j, NI)
        nn == Ins \o o.nn
    IN /\ form # "decl" => style = "("
       /\ form # "cmp" => f = "add"
       /\ form = "decl" => kd \notin {"self", "selfe"}
       /\ style = "{" => kd \notin LitKinds \ {"b"}
       /\ nodes = IF form = "cmp" THEN Append(nn, Node(f, <<1, o.ent.n>>, <<TRUE, o.ent.ad>>)) ELSE nn
       /\ env = IF form = "decl" THEN [k \in 1 .. NI + 1 |-> IF k <= NI THEN k ELSE o.ent.n]
                ELSE [k \in 1 .. NI |-> IF k > 1 THEN k ELSE IF form = "cmp" THEN Len(nn) + 1 ELSE o.ent.n]
       /\ prog = <<[s |-> form, v |-> IF form = "decl" THEN NI + 1 ELSE 1,
                    o |-> IF form = "decl" THEN style ELSE IF form = "cmp" THEN f ELSE "", e |-> o.ent.t]>>
       /\ init = <<form, kd, f>>

Init == /\ IF Cover = "ops" THEN CoverOps
           ELSE IF Cover = "forms" THEN CoverForms
           ELSE IF Cover = "pairs" THEN CoverPairs
           ELSE IF Cover = "numbers" THEN CoverNumbers
           ELSE /\ nodes = Ins
                /\ env = [k \in 1 .. NI |-> k]
                /\ prog = <<>>
                /\ init = <<>>
        /\ stack = <<>> /\ autos = <<>> /\ ph = 0 /\ fin = FALSE
Next == /\ UNCHANGED init
        /\ IF Cover # "" THEN ph = 0 /\ ph' = 1 /\ End ELSE (Choose \/ Act)
Spec == Init /\ [][Next]_vars

Emit == fin' => PrintT("@@" \o ToJson([nodes |-> nodes, env |-> env, prog |-> prog, ni |-> NI, tag |-> init,
                                      special |-> IF Cover = "ops" /\ "same" \notin {init[k] : k \in 2 .. Len(init)}
                                                  THEN Special(init[1], Tail(init)) ELSE {},
                                      kinks |-> IF Cover = "ops" /\ "same" \notin {init[k] : k \in 2 .. Len(init)}
                                                THEN Kinks(init[1], Tail(init)) ELSE {}]))
=============================================================================
