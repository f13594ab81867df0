------------------------------- MODULE Active -------------------------------
(***************************************************************************)
(* Activation of tapes and isolation of threads.                           *)
(*                                                                         *)
(* Threads Th work with tape objects Tp.  Every tape has an active type     *)
(* (one of Types), a set of variables recorded on it, and is active in at   *)
(* most one thread.  act[th][ty] is the tape of type ty that is active in   *)
(* thread th, 0 if there is none.                                          *)
(*                                                                         *)
(* A behaviour is an interleaving of public calls by the threads.  With     *)
(* Share, a tape that is not active elsewhere may be used by another thread *)
(* than before (calls are then made one after another); without, every     *)
(* tape stays with the thread that made it, and the calls of different      *)
(* threads may really overlap: the results of a thread do not depend on the *)
(* interleaving (Isolated).                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NTh, NTp, Types, Share, MaxVars, MaxV, MaxLen, Cats, Plan, Prefix, Vals, Forms, Sim, SimDepth

VARIABLES tp, act, hist
vars == <<tp, act, hist>>
view == <<tp, act, Len(hist)>>

Th == 1 .. NTh
Tp == 1 .. NTp
Abs(x) == IF x < 0 THEN -x ELSE x
Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S

NoTape == [st |-> "no", ty |-> "", own |-> 0, ni |-> 0, vs |-> <<>>, n |-> 0]
Init == /\ tp = [t \in Tp |-> NoTape]
        /\ act = [th \in Th |-> [ty \in Types |-> 0]]
        /\ hist = <<>>

Live(t) == tp[t].st = "live"
Users(t) == {th \in Th : \E ty \in Types : act[th][ty] = t}
\* th may call functions of t
May(th, t) == tp[t].st # "no" /\ Users(t) \subseteq {th} /\ (Share \/ tp[t].own = th)
On(th, t) == act[th][tp[t].ty] = t
\* variables of t can be made and destroyed: t or no tape of its type is active
Calm(th, t) == act[th][tp[t].ty] \in {0, t}

Step(th, o, r) == hist' = Append(hist, [th |-> th, o |-> o, r |-> r, a |-> act',
                                        n |-> [t \in Tp |-> IF tp'[t].st = "live" THEN tp'[t].n ELSE -1],
                                        v |-> [t \in Tp |-> Len(tp'[t].vs)]])
Same(th, o, r) == UNCHANGED <<tp, act>> /\ Step(th, o, r)

\* ------------------------------------------------------------------ activation
New == \E th \in Pick(Th), t \in Pick({t \in Tp : tp[t].st = "no"}), ty \in Pick(Types), on \in Pick(BOOLEAN) :
  LET o == <<"new", t, ty, on>>
  IN IF on /\ act[th][ty] # 0 THEN Same(th, o, <<"already">>)
     ELSE /\ tp' = [tp EXCEPT ![t] = [NoTape EXCEPT !.st = "live", !.ty = ty, !.own = th]]
          /\ act' = IF on THEN [act EXCEPT ![th][ty] = t] ELSE act
          /\ Step(th, o, <<"ok">>)
\* late: the variables outlive their tape
Destroy == \E th \in Pick(Th), late \in Pick(BOOLEAN) : \E t \in Pick({t \in Tp : May(th, t) /\ Calm(th, t)}) :
  /\ act' = IF On(th, t) THEN [act EXCEPT ![th][tp[t].ty] = 0] ELSE act
  /\ tp' = [tp EXCEPT ![t] = NoTape]
  /\ Step(th, <<"del", t, late>>, <<"ok">>)
\* a tape of another type may be active, and tapes without variables are independent of what is active
DestroyPlain == \E th \in Pick(Th) : \E t \in Pick({t \in Tp : May(th, t) /\ ~Calm(th, t) /\ tp[t].vs = <<>>}) :
  /\ tp' = [tp EXCEPT ![t] = NoTape]
  /\ UNCHANGED act
  /\ Step(th, <<"del", t, FALSE>>, <<"ok">>)
Activate == \E th \in Pick(Th), w \in Pick({"act", "set"}) : \E t \in Pick({t \in Tp : Live(t) /\ (Share \/ tp[t].own = th)}) :
  IF act[th][tp[t].ty] # 0 THEN Same(th, <<w, t>>, <<"already">>)
  ELSE /\ Users(t) = {}
       /\ act' = [act EXCEPT ![th][tp[t].ty] = t]
       /\ tp' = [tp EXCEPT ![t].own = IF Share THEN th ELSE @]
       /\ Step(th, <<w, t>>, <<"ok">>)
\* no tape is set as the active one
SetNone == \E th \in Pick(Th), ty \in Pick(Types) :
  Same(th, <<"set0", ty>>, IF act[th][ty] # 0 THEN <<"already">> ELSE <<"ok">>)
\* also from a thread in which the tape is not active
Deactivate == \E th \in Pick(Th) : \E t \in Pick({t \in Tp : Live(t) /\ (Share \/ tp[t].own = th)}) :
  /\ act' = IF On(th, t) THEN [act EXCEPT ![th][tp[t].ty] = 0] ELSE act
  /\ UNCHANGED tp
  /\ Step(th, <<"dea", t>>, <<"ok">>)
DeactivateAll == \E th \in Pick(Th), ty \in Pick(Types) :
  /\ act' = [act EXCEPT ![th][ty] = 0]
  /\ UNCHANGED tp
  /\ Step(th, <<"daa", ty>>, <<"ok">>)
Query == \E th \in Pick(Th) : \E t \in Pick({t \in Tp : Live(t) /\ (Share \/ tp[t].own = th)}) :
  Same(th, <<"is", t>>, <<IF On(th, t) THEN "yes" ELSE "no">>)
MoveNew == \E th \in Pick(Th) : \E t \in Pick({t \in Tp : May(th, t) /\ Live(t)}), u \in Pick({u \in Tp : tp[u].st = "no"}) :
  /\ tp' = [tp EXCEPT ![u] = [tp[t] EXCEPT !.own = th], ![t] = [NoTape EXCEPT !.st = "moved", !.ty = tp[t].ty, !.own = th]]
  /\ act' = IF On(th, t) THEN [act EXCEPT ![th][tp[t].ty] = u] ELSE act
  /\ Step(th, <<"mvc", t, u>>, <<"ok">>)
MoveTo == \E th \in Pick(Th) : \E t \in Pick({t \in Tp : May(th, t) /\ Live(t)}) :
  \E u \in Pick({u \in Tp : u # t /\ May(th, u) /\ tp[u].ty = tp[t].ty /\ (tp[u].vs = <<>> \/ Calm(th, u))}) :
  /\ tp' = [tp EXCEPT ![u] = [tp[t] EXCEPT !.own = th], ![t] = [NoTape EXCEPT !.st = "moved", !.ty = tp[t].ty, !.own = th]]
  /\ act' = IF On(th, t) THEN [act EXCEPT ![th][tp[t].ty] = u]
            ELSE IF On(th, u) THEN [act EXCEPT ![th][tp[t].ty] = 0] ELSE act
  /\ Step(th, <<"mva", t, u>>, <<"ok">>)
MoveSelf == \E th \in Pick(Th) : \E t \in Pick({t \in Tp : May(th, t) /\ Live(t)}) : Same(th, <<"mva", t, t>>, <<"ok">>)
\* the thread ends, with or without active tapes, and another one takes its place
Restart == \E th \in Pick(Th) :
  /\ act' = [act EXCEPT ![th] = [ty \in Types |-> 0]]
  /\ UNCHANGED tp
  /\ Step(th, <<"thr">>, <<"ok">>)

\* ------------------------------------------------------------------ recording
\* k inputs and a variable that is not registered
Unit(k) == [d \in 1 .. 2 |-> IF d = k THEN 1 ELSE 0]
Start == \E th \in Pick(Th) : \E t \in Pick({t \in Tp : May(th, t) /\ Live(t) /\ On(th, t)}), k \in Pick(1 .. 2), a, b \in Pick(Vals) :
  /\ k = 1 => b = a
  /\ tp' = [tp EXCEPT ![t].ni = k, ![t].n = 0, ![t].vs = [i \in 1 .. k |-> [v |-> IF i = 1 THEN a ELSE b, g |-> Unit(i), reg |-> TRUE]]
                                                    \o <<[v |-> b + 1, g |-> Unit(0), reg |-> FALSE]>>]
  /\ UNCHANGED act
  /\ Step(th, <<"rec", t, k, a, b>>, <<"ok">>)
Comb(c, x, d, y) == [v |-> 0, g |-> [k \in 1 .. 2 |-> c * x.g[k] + d * y.g[k]], reg |-> TRUE]
Res(f, x, y) ==
  CASE f = "add" -> [Comb(1, x, 1, y) EXCEPT !.v = x.v + y.v]
    [] f = "mul" -> [Comb(y.v, x, x.v, y) EXCEPT !.v = x.v * y.v]
    [] f = "lin" -> [Comb(2, x, -1, y) EXCEPT !.v = 2 * x.v - y.v]
Passive(x) == [v |-> x.v, g |-> [k \in 1 .. 2 |-> 0], reg |-> FALSE]
\* variable j is 0 for a new one
Op == \E th \in Pick(Th), f \in Pick(Forms) :
      \E t \in Pick({t \in Tp : May(th, t) /\ Live(t) /\ Calm(th, t) /\ tp[t].vs # <<>>}) :
      \E i, j \in Pick(1 .. Len(tp[t].vs)) : \E w \in Pick({0, i}) :
  LET V == tp[t].vs
      x == Res(f, V[i], V[j])
      rec == On(th, t) /\ (V[i].reg \/ V[j].reg)
      y == IF rec THEN x ELSE Passive(x)
  IN /\ w = 0 => Len(V) < MaxVars
     /\ On(th, t) \/ ~(V[i].reg \/ V[j].reg)      \* registered variables are used in expressions while their tape is active
     /\ Abs(x.v) <= MaxV /\ \A k \in 1 .. 2 : Abs(x.g[k]) <= MaxV
     /\ tp' = [tp EXCEPT ![t].vs = IF w = 0 THEN Append(V, y) ELSE [V EXCEPT ![w] = y],
                         ![t].n = IF rec THEN @ + 1 ELSE @]
     /\ UNCHANGED act
     /\ Step(th, <<"op", t, f, i, j, w>>, <<"v", x.v>>)
\* computing with constants records nothing
Const == \E th \in Pick(Th), ty \in Pick(Types), a, b \in Pick(Vals) : Same(th, <<"con", ty, a, b>>, <<"v", a * b + a>>)
Sweep == \E th \in Pick(Th) : \E t \in Pick({t \in Tp : May(th, t) /\ Live(t)}) :
         \E i \in Pick({i \in 1 .. Len(tp[t].vs) : tp[t].vs[i].reg}) :
  Same(th, <<"swp", t, i>>, <<"g">> \o [k \in 1 .. tp[t].ni |-> tp[t].vs[i].g[k]])
Value == \E th \in Pick(Th) : \E t \in Pick({t \in Tp : May(th, t) /\ Live(t)}) : \E i \in Pick(1 .. Len(tp[t].vs)) :
  Same(th, <<"val", t, i>>, <<"v", tp[t].vs[i].v>>)

Cat(c) == CASE c = "new" -> New [] c = "del" -> Destroy \/ DestroyPlain [] c = "act" -> Activate [] c = "set0" -> SetNone
            [] c = "dea" -> Deactivate [] c = "daa" -> DeactivateAll [] c = "is" -> Query [] c = "mvc" -> MoveNew
            [] c = "mva" -> MoveTo [] c = "mvs" -> MoveSelf [] c = "thr" -> Restart [] c = "rec" -> Start [] c = "op" -> Op
            [] c = "con" -> Const [] c = "swp" -> Sweep [] c = "val" -> Value

Len0 == IF Plan = <<>> THEN MaxLen ELSE Len(Plan)
Next ==
  /\ Len(hist) < Len(Prefix) + Len0
  /\ IF Len(hist) < Len(Prefix)
     THEN /\ \E c \in {"new", "act", "rec", "op"} : Cat(c)
          /\ hist'[Len(hist')].th = Prefix[Len(hist')].th /\ hist'[Len(hist')].o = Prefix[Len(hist')].o
     ELSE IF Plan = <<>> THEN \E c \in Cats : Cat(c[1])
          ELSE \E c \in Plan[Len(hist) - Len(Prefix) + 1] : Cat(c)
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ properties
TypeInv == \A th \in Th, ty \in Types : LET t == act[th][ty] IN t # 0 => t \in Tp /\ tp[t].st = "live" /\ tp[t].ty = ty
OneThread == \A t \in Tp : Cardinality(Users(t)) <= 1
\* gradients are those of the recorded calculation: a recorded value is what its inputs say (linear forms only change by lin/add)
Owner == ~Share => \A t \in Tp : \A th \in Users(t) : tp[t].own = th
Last == hist'[Len(hist')]
\* a call changes what is active only in the calling thread, and for one type only unless the thread ends
OwnActivation == [][ /\ \A th \in Th : th # Last.th => act'[th] = act[th]
                     /\ Last.o[1] # "thr" => Cardinality({ty \in Types : act'[Last.th][ty] # act[Last.th][ty]}) <= 1 ]_vars
\* a rejected activation changes nothing
Rejected == [][ Last.r = <<"already">> => UNCHANGED <<tp, act>> ]_vars
\* recordings of other threads and of tapes that are not active stay as they are
Isolated == [][ \A t \in Tp : (tp[t].st = "live" /\ tp'[t].st = "live" /\ tp'[t].n > tp[t].n) => act[Last.th][tp[t].ty] = t ]_vars

Emit == IF Sim THEN (TLCGet("level") >= SimDepth => PrintT("@@" \o ToJson(hist')))
        ELSE (Len(hist') = Len(Prefix) + Len0 => PrintT("@@" \o ToJson(hist')))
=============================================================================
