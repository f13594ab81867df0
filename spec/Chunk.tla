------------------------------- MODULE Chunk -------------------------------
(***************************************************************************)
(* The tape's block storage (xad::ChunkContainer) as a plain sequence.     *)
(* The specification knows nothing about blocks: that is the property.     *)
(* Containers q[1..NQ] hold sequences of values; "mv" is moved-from, which *)
(* may only be destroyed, assigned to, cleared or asked for its size.      *)
(* Every action is one public call; behaviours are printed and replayed    *)
(* into the real container for several block sizes and element types.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NQ,        \* containers
          MaxN,      \* bound of the length
          Sizes,     \* sizes used as arguments
          Adds,      \* counts used by append (at most a block)
          Exts,      \* counts used by uninitialized_extend
          Cats,      \* enabled calls
          Plan,      \* what may be called at each step (empty: anything of Cats, MaxLen times)
          MaxLen, Sim, SimDepth

VARIABLES q, hist

vars == <<q, hist>>
Q == 1..NQ
No == [st |-> "no", s |-> <<>>]
Init == q = [i \in Q |-> IF i = 1 THEN [st |-> "ok", s |-> <<>>] ELSE No] /\ hist = <<>>

Pick(S) == IF S = {} THEN {} ELSE IF Sim THEN {RandomElement(S)} ELSE S
Fresh == Len(hist) + 1             \* a value not used before
Fill(n, v) == [k \in 1..n |-> v]
Ramp(n, v) == [k \in 1..n |-> v * 100 + k]
Min(a, b) == IF a < b THEN a ELSE b

Is(i, st) == q[i].st = st
Becomes(i, s) == Len(s) <= MaxN /\ q' = [q EXCEPT ![i].s = s]

Do(o) ==
  LET i == o[2] s == q[o[2]].s v == Fresh
  IN CASE o[1] = "pb"  -> Is(i, "ok") /\ Becomes(i, Append(s, v))
       [] o[1] = "eb"  -> Is(i, "ok") /\ Becomes(i, Append(s, v))
       \* push_back of an element of the container itself
       [] o[1] = "ps"  -> Is(i, "ok") /\ s # <<>> /\ Becomes(i, Append(s, s[Len(s)]))
       [] o[1] = "app" -> Is(i, "ok") /\ Becomes(i, s \o Ramp(o[3], v))
       \* the caller constructs the new elements
       [] o[1] = "ext" -> Is(i, "ok") /\ Becomes(i, s \o Ramp(o[3], v))
       [] o[1] = "rsz" -> Is(i, "ok") /\ Becomes(i, IF o[3] <= Len(s) THEN SubSeq(s, 1, o[3])
                                                    ELSE s \o Fill(o[3] - Len(s), v))
       [] o[1] = "asg" -> Is(i, "ok") /\ Becomes(i, Fill(o[3], v))
       [] o[1] = "set" -> Is(i, "ok") /\ o[3] <= Len(s) /\ Becomes(i, [s EXCEPT ![o[3]] = v])
       [] o[1] = "rsv" -> Is(i, "ok") /\ UNCHANGED q
       [] o[1] = "clr" -> q[i].st \in {"ok", "mv"} /\ Becomes(i, <<>>)
       [] o[1] = "new" -> Is(i, "no") /\ q' = [q EXCEPT ![i] = [st |-> "ok", s |-> <<>>]]
       [] o[1] = "del" -> ~Is(i, "no") /\ q' = [q EXCEPT ![i] = No]
       [] o[1] = "mvc" -> /\ Is(i, "no") /\ Is(o[3], "ok")
                          /\ q' = [q EXCEPT ![i] = q[o[3]], ![o[3]] = [st |-> "mv", s |-> <<>>]]
       [] o[1] = "mva" -> /\ ~Is(i, "no") /\ Is(o[3], "ok")
                          /\ IF i = o[3] THEN UNCHANGED q
                             ELSE q' = [q EXCEPT ![i] = q[o[3]], ![o[3]] = [st |-> "mv", s |-> <<>>]]

Cand(c) ==
  CASE c \in {"pb", "eb", "ps", "clr", "new", "del"} -> {<<c, i>> : i \in Pick(Q)}
    [] c = "app" -> {<<c, i, n>> : i \in Pick(Q), n \in Pick(Adds)}
    [] c = "ext" -> {<<c, i, n>> : i \in Pick(Q), n \in Pick(Exts)}
    [] c \in {"rsz", "asg", "rsv"} -> {<<c, i, n>> : i \in Pick(Q), n \in Pick(Sizes)}
    [] c = "set" -> {<<c, i, n>> : i \in Pick(Q), n \in Pick(Sizes \ {0})}
    [] c \in {"mvc", "mva"} -> {<<c, i, j>> : i \in Pick(Q), j \in Pick(Q)}

Obs == [i \in Q |-> <<q[i].st, q[i].s>>]
Step(o) == /\ Do(o)
           /\ hist' = Append(hist, IF Sim THEN [o |-> o, s |-> Obs'] ELSE [o |-> o])

PickC(S) == IF ~Sim THEN S ELSE {RandomElement(S), RandomElement(S), RandomElement(S), RandomElement(S)}
Next == IF Plan # <<>> THEN /\ Len(hist) < Len(Plan)
                            /\ \E c \in Plan[Len(hist) + 1] : \E o \in Cand(c) : Step(o)
        ELSE /\ Len(hist) < MaxLen
             /\ \/ \E c \in PickC(Cats) : \E o \in Cand(c) : Step(o)
                \/ Sim /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

TypeOK == \A i \in Q : q[i].st \in {"no", "ok", "mv"} /\ (q[i].st # "ok" => q[i].s = <<>>)
\* a call changes only the containers it names
Frame == [][\A i \in Q : (hist' # hist /\ hist'[Len(hist')].o[2] # i
                          /\ (hist'[Len(hist')].o[1] \in {"mvc", "mva"} => hist'[Len(hist')].o[3] # i))
                         => q'[i] = q[i]]_vars

Emit == IF Sim THEN (TLCGet("level") >= SimDepth => PrintT("@@" \o ToJson(hist')))
        ELSE (Len(hist') = (IF Plan # <<>> THEN Len(Plan) ELSE MaxLen)
              => PrintT("@@" \o ToJson([x |-> hist', s |-> Obs'])))
=============================================================================
