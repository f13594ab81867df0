------------------------------- MODULE Rules -------------------------------
(* Enumerates Sym: one behaviour per operation and activity pattern, one    *)
(* further differentiation per step; the printed table is the oracle.       *)
EXTENDS Sym, TLC, Json
CONSTANT MaxOrder, Which
VARIABLES op, act, term, order

vars == <<op, act, term, order>>
Init == /\ op \in Which
        /\ act \in Patterns(op)
        /\ order = 0
        /\ term = Fun(op)
Next == /\ order < MaxOrder
        /\ order' = order + 1
        /\ term' = D(term, order + 1, act)
        /\ UNCHANGED <<op, act>>
Spec == Init /\ [][Next]_vars

\* every symbol that occurs has a rule: differentiation never gets stuck
RECURSIVE Closed(_)
Closed(t) == IF t[1] = "r" \/ t[1] = "q" THEN TRUE
             ELSE t[1] # "no rule for" /\ \A k \in 2 .. Len(t) : Closed(t[k])
RulesComplete == Closed(term)
\* the derivative is linear in each direction: it vanishes for passive arguments
RECURSIVE Refs(_)
Refs(t) == IF t[1] = "r" THEN {t} ELSE IF t[1] = "q" THEN {} ELSE UNION {Refs(t[k]) : k \in 2 .. Len(t)}
PassiveUndifferentiated == \A t \in Refs(term) : act[t[2]] \/ t[3] = <<>>

Emit == PrintT("@@" \o ToJson([op |-> op, act |-> act', order |-> order', term |-> term',
                               dom |-> Dom(op, act), dom3 |-> Dom(op, act) \o Dom3(op, act), fun |-> IF order = 0 THEN Fun(op) ELSE <<"q", 0, 1>>,
                               \* complex functions have a second formulation, which has to agree in value and derivative
                               alt |-> IF order = 0 /\ op \in COps /\ CAlt(op) # Fun(op)
                                       THEN <<CAlt(op), D(CAlt(op), 1, act)>> ELSE <<>>]))
=============================================================================
