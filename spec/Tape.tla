-------------------------------- MODULE Tape --------------------------------
(***************************************************************************)
(* Specification of the public behaviour of xad::Tape / xad::AReal.        *)
(*                                                                         *)
(*  - handles h[1..NH] are program variables of type AReal;                *)
(*  - a registered handle owns a CELL (one incarnation of a registered     *)
(*    variable).  Cells are never re-used in the specification, whereas    *)
(*    the implementation re-uses slots: that re-use must be unobservable;  *)
(*  - a tape owns a statement list, adjoints per cell, checkpoints (which  *)
(*    are statements whose propagation is done by a callback) and owned    *)
(*    callbacks;                                                           *)
(*  - a ghost forward-mode tangent (tan) is the independent oracle of the  *)
(*    gradient the reverse sweep has to deliver.                           *)
(*                                                                         *)
(* Every action is one public call.  hist records calls with the expected  *)
(* result; behaviours are printed as JSON and replayed into the real code. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  NH,        \* number of handles
  NT,        \* number of tape objects
  MaxC,      \* number of cells a behaviour may create
  MaxV,      \* bound of |value|
  MaxD,      \* bound of |adjoint|
  Cats,      \* enabled call categories <<name, weight copy>>
  Forms,     \* enabled expression forms
  Vals,      \* constants
  Coefs,     \* coefficients
  Seeds,     \* adjoint seeds
  Kinds,     \* checkpoint callback kinds
  NP,        \* number of saved positions
  MaxLen,    \* number of calls after the prefix
  Prefix,    \* calls made first
  Plan,      \* if not empty: what may be called at each step after the prefix
  Ghost,     \* maintain the tangent oracle
  SimDepth,  \* level at which a random behaviour is printed
  Sim        \* simulation: random choice of arguments, full observations

VARIABLES h, cl, tp, act, mk, cbn, cbd, nck, tan, gv, gok, hist, ret

vars == <<h, cl, tp, act, mk, cbn, cbd, nck, tan, gv, gok, hist, ret>>
view == <<h, cl, tp, act, mk, cbn, cbd, nck, tan, gv, IF Plan = <<>> THEN Len(hist) < Len(Prefix) ELSE Len(hist)>>

H == 1..NH
T == 1..NT
C == 1..MaxC
Abs(x) == IF x < 0 THEN -x ELSE x

Pick(S) == IF S = {} THEN {} ELSE IF Sim THEN {RandomElement(S)} ELSE S
PickN(S) == IF S = {} THEN {} ELSE IF Sim THEN {RandomElement(S), RandomElement(S), RandomElement(S), RandomElement(S), RandomElement(S)} ELSE S

ZeroD == [c \in C |-> 0]
NoTape == [st |-> "no", s |-> <<>>, d |-> ZeroD, in |-> FALSE, q |-> FALSE, n |-> 0,
           cb |-> <<>>, base |-> {}, ho |-> FALSE, br |-> 0]   \* ho: slots of older variables were free at the start; br: a callback threw
NewTape == [NoTape EXCEPT !.st = "live"]
NoH == [st |-> "no", v |-> 0, c |-> 0]

Init ==
  /\ h = [i \in H |-> NoH]
  /\ cl = <<>>
  /\ tp = [t \in T |-> NoTape]
  /\ act = 0
  /\ mk = [k \in 1..NP |-> [t |-> 0, p |-> 0]]
  /\ cbn = 0 /\ cbd = {} /\ nck = 0
  /\ tan = [c \in C |-> ZeroD]
  /\ gv = [t \in T |-> FALSE] /\ gok = TRUE
  /\ hist = <<>>
  /\ ret = <<"ok">>

----------------------------------------------------------------------------
(* predicates on the state *)
Cells(t) == {c \in 1..Len(cl) : cl[c].t = t}
Alive(t) == {c \in Cells(t) : cl[c].dn = 0}
Dead(t)  == {c \in Cells(t) : cl[c].dn > 0}
DeadPending(t) == {c \in Dead(t) : tp[t].d[c] # 0}
\* a dead cell holds an adjoint and a later variable may have been given its slot:
\* adjoints are unspecified for those (see DESIGN.md, known findings)
Clash(t) == \E d \in DeadPending(t) : \E c \in Cells(t) : c > cl[d].dn
ReadOK(t, c) == /\ ~tp[t].q /\ ~(\E d \in DeadPending(t) : c > cl[d].dn)
SweepOK(t) == ~tp[t].q /\ ~Clash(t)

Reg(i) == h[i].c # 0
Usable(i) == IF h[i].c = 0 THEN TRUE ELSE (act # 0 /\ cl[h[i].c].t = act /\ cl[h[i].c].z = 0)
Use(i)    == h[i].st = "ok" /\ Usable(i)
Target(i) == h[i].st \in {"ok", "mv"} /\ Usable(i)
NewCellOK == Len(cl) < MaxC

\* expressions: value, and list of <<multiplier, handle>>
EVal(f, a, b, ca, cb) ==
  CASE f = "lin"  -> ca * h[a].v + cb * h[b].v
    [] f = "mul"  -> h[a].v * h[b].v
    [] f = "poly" -> h[a].v * h[b].v + ca * h[a].v
    [] f = "neg"  -> -h[a].v
    [] f = "rsub" -> ca - h[a].v
    [] f = "one"  -> ca * h[a].v
ETerms(f, a, b, ca, cb) ==
  CASE f = "lin"  -> << <<ca, a>>, <<cb, b>> >>
    [] f = "mul"  -> << <<h[b].v, a>>, <<h[a].v, b>> >>
    [] f = "poly" -> << <<h[b].v, a>>, <<h[a].v, b>>, <<ca, a>> >>
    [] f = "neg"  -> << <<-1, a>> >>
    [] f = "rsub" -> << <<-1, a>> >>
    [] f = "one"  -> << <<ca, a>> >>
Ops(f, a, b) == IF f \in {"lin", "mul", "poly"} THEN {a, b} ELSE {a}
RegTerms(ts) == SelectSeq(ts, LAMBDA x : h[x[2]].c # 0)
RTerms(ts) == LET r == RegTerms(ts) IN [k \in 1..Len(r) |-> <<r[k][1], h[r[k][2]].c>>]

TanOf(r) == \* tangent of a list of <<mult, cell>>
  LET RECURSIVE S(_, _)
      S(k, b) == IF k = 0 THEN 0 ELSE S(k - 1, b) + r[k][1] * tan[r[k][2]][b]
  IN [b \in C |-> S(Len(r), b)]

TanSmall(f) == \A b \in C : Abs(f[b]) <= MaxD

Small(x) == Abs(x) <= MaxV

----------------------------------------------------------------------------
(* recording.  Put(i, v, r): handle i gets value v and the statement        *)
(* [its cell := r]; a cell is created if it has none and r is not empty.    *)
Stmt(l, r, k, id) == [l |-> l, r |-> r, k |-> k, id |-> id]

PutCell(i, v, r, rec, newst) ==
  \* rec: something is recorded
  IF ~rec THEN
    /\ h' = [h EXCEPT ![i] = [st |-> newst, v |-> v, c |-> 0]]
    /\ UNCHANGED <<cl, tp, tan, gv>>
  ELSE
    LET t == act
        isnew == h[i].c = 0
        c == IF isnew THEN Len(cl) + 1 ELSE h[i].c
        s2 == Append(tp[t].s, Stmt(c, r, 0, 0))
    IN /\ isnew => NewCellOK
       /\ h' = [h EXCEPT ![i] = [st |-> newst, v |-> v, c |-> c]]
       /\ cl' = IF isnew THEN Append(cl, [t |-> t, dn |-> 0, p |-> Len(s2), z |-> 0, x |-> 0]) ELSE cl
       /\ tp' = [tp EXCEPT ![t].s = s2, ![t].n = IF isnew THEN @ + 1 ELSE @]
       /\ IF Ghost THEN LET g == TanOf(r) IN /\ TanSmall(g)
                                             /\ tan' = [tan EXCEPT ![c] = g]
                   ELSE UNCHANGED tan
       /\ UNCHANGED gv

Same == UNCHANGED <<act, mk, cbn, cbd, nck, gok>>
Ok == ret' = <<"ok">>

\* x = expr / X x(expr)
Assign(i, f, a, b, ca, cb) ==
  LET v == EVal(f, a, b, ca, cb)
      r == RTerms(ETerms(f, a, b, ca, cb))
  IN /\ Target(i) /\ Use(a) /\ (b \in Ops(f, a, b) => Use(b))
     /\ Small(v)
     /\ PutCell(i, v, r, r # <<>> \/ Reg(i), "ok")
     /\ Same /\ Ok
Ctor(i, f, a, b, ca, cb) ==
  LET v == EVal(f, a, b, ca, cb)
      r == RTerms(ETerms(f, a, b, ca, cb))
  IN /\ h[i].st = "no" /\ Use(a) /\ (b \in Ops(f, a, b) => Use(b))
     /\ Small(v)
     /\ PutCell(i, v, r, r # <<>>, "ok")
     /\ Same /\ Ok

NewH(i, v) == /\ h[i].st = "no"
              /\ h' = [h EXCEPT ![i] = [st |-> "ok", v |-> v, c |-> 0]]
              /\ UNCHANGED <<cl, tp, tan, gv>> /\ Same /\ Ok

SetC(i, v) == /\ Target(i) /\ PutCell(i, v, <<>>, Reg(i), "ok") /\ Same /\ Ok

CopyAsg(i, a) == /\ Target(i) /\ Use(a)
                 /\ LET r == RTerms(<< <<1, a>> >>)
                    IN PutCell(i, h[a].v, r, r # <<>> \/ Reg(i), "ok")
                 /\ Same /\ Ok
CopyCtor(i, a) == /\ h[i].st = "no" /\ Use(a)
                  /\ LET r == RTerms(<< <<1, a>> >>)
                     IN PutCell(i, h[a].v, r, r # <<>>, "ok")
                  /\ Same /\ Ok

\* x (+,-,*)= active ; x *= const ; ++x ; x++
Comp(i, k, a, c) ==
  /\ Use(i) /\ (k \in {"add", "sub", "mul"} => Use(a))
  /\ LET v == CASE k = "add" -> h[i].v + h[a].v
                [] k = "sub" -> h[i].v - h[a].v
                [] k = "mul" -> h[i].v * h[a].v
                [] k = "mulc" -> h[i].v * c
                [] k \in {"pre"} -> h[i].v + 1
                [] k \in {"prd"} -> h[i].v - 1
         ts == CASE k = "add" -> << <<1, i>>, <<1, a>> >>
                 [] k = "sub" -> << <<1, i>>, <<-1, a>> >>
                 [] k = "mul" -> << <<h[a].v, i>>, <<h[i].v, a>> >>
                 [] k = "mulc" -> << <<c, i>> >>
                 [] k \in {"pre", "prd"} -> << <<1, i>> >>
         r == RTerms(ts)
     IN Small(v) /\ PutCell(i, v, r, r # <<>> \/ Reg(i), "ok")
  /\ Same /\ Ok
\* x += const : the value changes, dependence stays, nothing recorded
AddC(i, c) == /\ Use(i) /\ Small(h[i].v + c)
              /\ h' = [h EXCEPT ![i].v = @ + c]
              /\ UNCHANGED <<cl, tp, tan, gv>> /\ Same /\ Ok
\* x++ : a registered copy lives and dies within the call
PostInc(i) ==
  /\ Use(i) /\ Small(h[i].v + 1)
  /\ IF ~Reg(i) THEN h' = [h EXCEPT ![i].v = @ + 1] /\ UNCHANGED <<cl, tp, tan, gv>>
     ELSE LET c == Len(cl) + 1
              s1 == Append(tp[act].s, Stmt(c, << <<1, h[i].c>> >>, 0, 0))
              s2 == Append(s1, Stmt(h[i].c, << <<1, h[i].c>> >>, 0, 0))
          IN /\ NewCellOK
             /\ cl' = Append(cl, [t |-> act, dn |-> c, p |-> Len(s1), z |-> 0, x |-> 0])
             /\ tp' = [tp EXCEPT ![act].s = s2]
             /\ h' = [h EXCEPT ![i].v = @ + 1]
             /\ tan' = IF Ghost THEN [tan EXCEPT ![c] = tan[h[i].c]] ELSE tan
             /\ UNCHANGED gv
  /\ ret' = <<"val", h[i].v>> /\ Same

\* x = x + y, n times in a row (one specification step, n statements)
Repeat(i, a, n) ==
  /\ i # a /\ Use(i) /\ Use(a) /\ Reg(i)
  /\ LET v == h[i].v + n * h[a].v
         r == RTerms(<< <<1, i>>, <<n, a>> >>)
     IN Small(v) /\ PutCell(i, v, r, TRUE, "ok")
  /\ Same /\ Ok
MoveCtor(i, j) == /\ h[i].st = "no" /\ Use(j) /\ i # j
                  /\ h' = [h EXCEPT ![i] = h[j], ![j] = [st |-> "mv", v |-> 0, c |-> 0]]
                  /\ UNCHANGED <<cl, tp, tan, gv>> /\ Same /\ Ok
\* move assignment: the source keeps (and later releases) what the target held
MoveAsg(i, j) == /\ h[i].st \in {"ok", "mv"} /\ h[j].st = "ok" /\ i # j
                 /\ h' = [h EXCEPT ![i] = h[j], ![j] = [st |-> "mv", v |-> 0, c |-> h[i].c]]
                 /\ UNCHANGED <<cl, tp, tan, gv>> /\ Same /\ Ok
Swap(i, j) == /\ h[i].st = "ok" /\ h[j].st = "ok" /\ i < j
              /\ h' = [h EXCEPT ![i] = h[j], ![j] = h[i]]
              /\ UNCHANGED <<cl, tp, tan, gv>> /\ Same /\ Ok
\* destruction releases the variable on the active tape
Del(i) ==
  LET c == h[i].c IN
  /\ h[i].st # "no"
  /\ h' = [h EXCEPT ![i] = NoH]
  /\ IF c = 0 THEN UNCHANGED <<cl, tp>>
     ELSE /\ act \in {0, cl[c].t}
          /\ cl' = [cl EXCEPT ![c].dn = Len(cl)]
          /\ tp' = IF act = 0 THEN tp ELSE [tp EXCEPT ![act].n = @ - 1]
  /\ UNCHANGED <<tan, gv>> /\ Same /\ Ok

\* container operations on the variables lo..hi (moved into a std::vector and back)
Range(lo, hi) == lo <= hi /\ \A i \in lo..hi : h[i].st = "ok"
VecUse(lo, hi) == Range(lo, hi) /\ lo < hi
Rotate(lo, hi) == /\ VecUse(lo, hi)
                  /\ h' = [i \in H |-> IF i \in lo..(hi - 1) THEN h[i + 1] ELSE IF i = hi THEN h[lo] ELSE h[i]]
                  /\ UNCHANGED <<cl, tp, tan, gv>> /\ Same /\ Ok
Reverse(lo, hi) == /\ VecUse(lo, hi)
                   /\ h' = [i \in H |-> IF i \in lo..hi THEN h[lo + hi - i] ELSE h[i]]
                   /\ UNCHANGED <<cl, tp, tan, gv>> /\ Same /\ Ok
Sort(lo, hi) == \* stable sort by value
  LET rank(i) == lo + Cardinality({j \in lo..hi : h[j].v < h[i].v \/ (h[j].v = h[i].v /\ j < i)})
  IN /\ VecUse(lo, hi)
     /\ h' = [k \in H |-> IF k \in lo..hi THEN h[CHOOSE i \in lo..hi : rank(i) = k] ELSE h[k]]
     /\ UNCHANGED <<cl, tp, tan, gv>> /\ Same /\ Ok
\* erase element k of lo..hi
Erase(k, hi) ==
  LET c == h[k].c IN
  /\ Range(k, hi)
  /\ h' = [i \in H |-> IF i \in k..(hi - 1) THEN h[i + 1] ELSE IF i = hi THEN NoH ELSE h[i]]
  /\ IF c = 0 THEN UNCHANGED <<cl, tp>>
     ELSE /\ act \in {0, cl[c].t}
          /\ cl' = [cl EXCEPT ![c].dn = Len(cl)]
          /\ tp' = IF act = 0 THEN tp ELSE [tp EXCEPT ![act].n = @ - 1]
  /\ UNCHANGED <<tan, gv>> /\ Same /\ Ok
\* insert a copy of variable a at place k of k..hi
Insert(k, hi, a) ==
  LET reg == h[a].c # 0
      c == IF reg THEN Len(cl) + 1 ELSE 0
      s2 == Append(tp[act].s, Stmt(c, << <<1, h[a].c>> >>, 0, 0))
  IN /\ Range(k, hi) /\ hi < NH /\ h[hi + 1].st = "no" /\ Use(a)
     /\ h' = [i \in H |-> IF i \in (k + 1)..(hi + 1) THEN h[i - 1]
                           ELSE IF i = k THEN [st |-> "ok", v |-> h[a].v, c |-> c] ELSE h[i]]
     /\ IF reg THEN /\ NewCellOK
                    /\ cl' = Append(cl, [t |-> act, dn |-> 0, p |-> Len(s2), z |-> 0, x |-> 0])
                    /\ tp' = [tp EXCEPT ![act].s = s2, ![act].n = @ + 1]
                    /\ tan' = IF Ghost THEN [tan EXCEPT ![c] = tan[h[a].c]] ELSE tan
        ELSE UNCHANGED <<cl, tp, tan>>
     /\ UNCHANGED gv /\ Same /\ Ok

Register(i) ==
  /\ Use(i) /\ act # 0
  /\ IF Reg(i) THEN UNCHANGED <<h, cl, tp, tan, gv>> ELSE PutCell(i, h[i].v, <<>>, TRUE, "ok")
  /\ Same /\ Ok

----------------------------------------------------------------------------
(* derivatives *)
\* derivative(x) = s / derivative(x) += s  : registers x if needed
Seed(i, s, inc) ==
  /\ h[i].st = "ok"
  /\ IF act = 0 THEN /\ ret' = <<"exc", "NoTape">>
                     /\ UNCHANGED <<h, cl, tp, tan, gv>>
     ELSE /\ Usable(i)
          /\ LET isnew == ~Reg(i)
                 c == IF isnew THEN Len(cl) + 1 ELSE h[i].c
                 s2 == IF isnew THEN Append(tp[act].s, Stmt(c, <<>>, 0, 0)) ELSE tp[act].s
                 old == tp[act].d[c]
             IN /\ isnew => NewCellOK
                /\ (~isnew) => (cl[c].x = 0)
                /\ ReadOK(act, c)
                /\ Abs(old + s) <= MaxD
                /\ h' = [h EXCEPT ![i].c = c]
                /\ cl' = IF isnew THEN Append(cl, [t |-> act, dn |-> 0, p |-> Len(s2), z |-> 0, x |-> 0]) ELSE cl
                /\ tp' = [tp EXCEPT ![act].s = s2, ![act].n = IF isnew THEN @ + 1 ELSE @,
                                    ![act].in = TRUE,
                                    ![act].d[c] = IF inc THEN @ + s ELSE s]
                /\ UNCHANGED <<tan, gv>>
          /\ Ok
  /\ Same
\* const read through the variable
Get(i) ==
  /\ h[i].st = "ok"
  /\ IF act = 0 THEN ret' = <<"exc", "NoTape">> /\ UNCHANGED tp
     ELSE IF ~Reg(i) THEN ret' = <<"val", 0>> /\ UNCHANGED tp
     ELSE /\ Usable(i) /\ ReadOK(act, h[i].c)
          /\ ret' = IF cl[h[i].c].x = 1 THEN <<"cut", tp[act].d[h[i].c]>> ELSE <<"val", tp[act].d[h[i].c]>>
          /\ tp' = IF cl[h[i].c].x = 1 THEN tp ELSE [tp EXCEPT ![act].in = TRUE]
          /\ cl[h[i].c].x = 1 => tp[act].in
  /\ UNCHANGED <<h, cl, tan, gv>> /\ Same
\* const read through the tape (throws if no derivative was set; checked builds only)
TGet(i) ==
  /\ h[i].st = "ok" /\ Reg(i) /\ cl[h[i].c].z = 0
  /\ LET t == cl[h[i].c].t
     IN /\ tp[t].st = "live" /\ ReadOK(t, h[i].c) /\ cl[h[i].c].x = 0
        /\ ret' = IF ~tp[t].in THEN <<"dexc", "DerivNotInit">> ELSE <<"val", tp[t].d[h[i].c]>>
  /\ UNCHANGED <<h, cl, tp, tan, gv>> /\ Same

Forget(t) == [c \in 1..Len(cl) |-> IF cl[c].t # t THEN cl[c]
                                   ELSE IF cl[c].dn > 0 THEN [cl[c] EXCEPT !.t = 0, !.p = 0, !.dn = 1, !.x = 0]
                                   ELSE [cl[c] EXCEPT !.p = 0, !.x = 0, !.z = IF @ = 1 THEN 0 ELSE @]]
Unmark(t) == [k \in 1..NP |-> IF mk[k].t = t THEN [t |-> 0, p |-> 0] ELSE mk[k]]
TanBase(t) == IF Ghost THEN [c \in C |-> IF c \in Cells(t) THEN [b \in C |-> IF c = b /\ c \in Alive(t) THEN 1 ELSE 0] ELSE tan[c]] ELSE tan

NewRec(t) ==
  /\ tp[t].st = "live"
  /\ cl' = Forget(t)
  /\ tp' = [tp EXCEPT ![t].s = <<>>, ![t].d = ZeroD, ![t].in = FALSE, ![t].q = FALSE,
                      ![t].br = 0, ![t].base = Alive(t), ![t].ho = @ \/ Dead(t) # {}]
  /\ mk' = Unmark(t)
  /\ tan' = TanBase(t) /\ gv' = [gv EXCEPT ![t] = TRUE]
  /\ UNCHANGED <<h, act, cbn, cbd, nck, gok>> /\ Ok
\* requires that none of its variables is alive
ClearAll(t) ==
  /\ tp[t].st = "live" /\ Alive(t) = {}
  /\ cl' = Forget(t)
  /\ tp' = [tp EXCEPT ![t] = [NewTape EXCEPT !.cb = tp[t].cb]]
  /\ mk' = Unmark(t)
  /\ tan' = TanBase(t) /\ gv' = [gv EXCEPT ![t] = FALSE]
  /\ UNCHANGED <<h, act, cbn, cbd, nck, gok>> /\ Ok
ClearDer(t) ==
  /\ tp[t].st = "live"
  /\ tp' = [tp EXCEPT ![t].d = ZeroD, ![t].in = FALSE, ![t].q = FALSE]
  /\ UNCHANGED <<h, cl, tan, gv>> /\ Same /\ Ok

\* callbacks of these kinds throw; after kind Hard they leave nested recordings open
Throwing == {8, 9}
Hard == {9}
\* reverse sweep of statements Len..p+1
SweepRes(t, p) ==
  LET s == tp[t].s
      RECURSIVE Rhs(_, _, _, _)
      Rhs(r, k, a, st) ==
        IF k > Len(r) \/ st.ovf THEN st
        ELSE LET c == r[k][2]
                 nv == st.d[c] + r[k][1] * a
             IN Rhs(r, k + 1, a, [st EXCEPT !.d[c] = nv, !.ovf = Abs(nv) > MaxD])
      RECURSIVE Go(_, _)
      Go(k, st) ==
        IF k <= p \/ st.ovf \/ st.br > 0 THEN st
        ELSE LET a == st.d[s[k].l]
                 s1 == [st EXCEPT !.d[s[k].l] = 0,
                                  !.calls = IF s[k].k # 0 THEN Append(@, s[k].id) ELSE @,
                                  !.q = IF s[k].k # 0 THEN k ELSE @,
                                  !.br = IF s[k].k \in Throwing THEN s[k].k ELSE 0]
             IN Go(k - 1, IF a = 0 THEN s1 ELSE Rhs(s[k].r, 1, a, s1))
  IN Go(Len(s), [d |-> tp[t].d, calls |-> <<>>, q |-> 0, br |-> 0, ovf |-> FALSE])

GradOK(t, d2) == \* the sweep equals seed-weighted forward tangents
  \A b \in tp[t].base :
    LET RECURSIVE S(_)
        S(c) == IF c = 0 THEN 0 ELSE S(c - 1) + tp[t].d[c] * tan[c][b]
    IN d2[b] = S(Len(cl))
NonBaseZero(t, d2) ==
  \A c \in Cells(t) \ tp[t].base : cl[c].z # 0 \/ d2[c] = 0

Trunc(t, len, zk) == \* cells created after statement len
  [c \in 1..Len(cl) |-> IF cl[c].t = t /\ cl[c].dn = 0 /\ cl[c].p > len /\ cl[c].z = 0
                        THEN [cl[c] EXCEPT !.z = zk] ELSE cl[c]]

Sweep(t, p) ==
  /\ tp[t].st = "live" /\ p <= Len(tp[t].s)
  /\ IF ~tp[t].in
     THEN /\ ret' = <<"exc", "DerivNotInit">>
          /\ UNCHANGED <<h, cl, tp, tan, gv, mk, gok>>
     ELSE /\ SweepOK(t)
          /\ LET r == SweepRes(t, p)
                 len == IF r.q = 0 THEN Len(tp[t].s) ELSE r.q - 1
             IN IF r.br > 0
                \* the exception reaches the caller; the recording is unusable until a new one is started
                THEN /\ ret' = <<"exc", "Callback">>
                     /\ tp' = [tp EXCEPT ![t].br = r.br, ![t].q = TRUE]
                     /\ cl' = Trunc(t, len, 1)
                     /\ mk' = [k \in 1..NP |-> IF mk[k].t = t THEN [t |-> 0, p |-> 0] ELSE mk[k]]
                     /\ gv' = [gv EXCEPT ![t] = FALSE]
                     /\ UNCHANGED gok
                ELSE
                /\ ~r.ovf
                /\ tp' = [tp EXCEPT ![t].d = r.d, ![t].s = SubSeq(@, 1, len)]
                /\ cl' = IF r.q = 0 THEN cl ELSE Trunc(t, len, 1)
                /\ mk' = [k \in 1..NP |-> IF mk[k].t = t /\ mk[k].p > len THEN [t |-> 0, p |-> 0] ELSE mk[k]]
                /\ ret' = <<"swp", r.calls>>
                /\ gok' = (gok /\ ((Ghost /\ gv[t] /\ p = 0) => GradOK(t, r.d) /\ NonBaseZero(t, r.d)))
                /\ gv' = [gv EXCEPT ![t] = @ /\ r.q = 0]
          /\ UNCHANGED <<h, tan>>
  \* a sweep that crosses checkpoints runs callbacks, which record on the active tape
  /\ (\E k \in (p + 1)..Len(tp[t].s) : tp[t].s[k].k # 0) => act = t
  /\ UNCHANGED <<act, cbn, cbd, nck>>

Mark(k, t) == /\ tp[t].st = "live"
              /\ mk' = [mk EXCEPT ![k] = [t |-> t, p |-> Len(tp[t].s)]]
              /\ UNCHANGED <<h, cl, tp, tan, gv, act, cbn, cbd, nck, gok>> /\ Ok
ResetTo(k) ==
  LET t == mk[k].t  p == mk[k].p
      \* discarded variables whose slots may have belonged to an older one
      re == {c \in Cells(t) : cl[c].p > p /\ \E d \in Dead(t) : cl[d].dn < c} IN
  /\ t # 0
  /\ tp' = [tp EXCEPT ![t].s = SubSeq(@, 1, p), ![t].q = @ \/ \E c \in re : tp[t].d[c] # 0]
  /\ cl' = Trunc(t, p, 2)
  /\ mk' = [j \in 1..NP |-> IF mk[j].t = t /\ mk[j].p > p THEN [t |-> 0, p |-> 0] ELSE mk[j]]
  /\ gv' = [gv EXCEPT ![t] = @ /\ p = Len(tp[t].s)]
  /\ UNCHANGED <<h, tan, act, cbn, cbd, nck, gok>> /\ Ok
ClearAfter(k) ==
  LET t == mk[k].t  p == mk[k].p
      later == {c \in Cells(t) : cl[c].p > p}
      \* slots of these may have belonged to an older variable
      re == {c \in later : tp[t].ho \/ \E d \in Dead(t) : cl[d].dn < c}
  IN
  /\ t # 0
  /\ tp' = [tp EXCEPT ![t].d = [c \in C |-> IF c \in later THEN 0 ELSE tp[t].d[c]],
                      ![t].q = @ \/ Clash(t) \/ \E c \in re : tp[t].d[c] # 0]
  /\ cl' = [c \in 1..Len(cl) |-> IF c \in later THEN [cl[c] EXCEPT !.x = 1] ELSE cl[c]]
  /\ UNCHANGED <<h, tan, gv>> /\ Same /\ Ok

----------------------------------------------------------------------------
(* checkpoints: y = ca*a + cb*b computed passively; the callback propagates *)
Ckpt(i, a, b, ca, cb, kind) ==
  LET v == ca * h[a].v + cb * h[b].v
      r == RTerms(<< <<ca, a>>, <<cb, b>> >>)
      isnew == h[i].c = 0
      c == IF isnew THEN Len(cl) + 1 ELSE h[i].c
      s1 == IF isnew THEN Append(tp[act].s, Stmt(c, <<>>, 0, 0)) ELSE tp[act].s
      s2 == Append(s1, Stmt(c, r, kind, nck + 1))
  IN /\ act # 0 /\ (Target(i) \/ h[i].st = "no") /\ Use(a) /\ Use(b) /\ Small(v)
     /\ isnew => NewCellOK
     /\ h' = [h EXCEPT ![i] = [st |-> "ok", v |-> v, c |-> c]]
     /\ cl' = IF isnew THEN Append(cl, [t |-> act, dn |-> 0, p |-> Len(s1), z |-> 0, x |-> 0]) ELSE cl
     /\ tp' = [tp EXCEPT ![act].s = s2, ![act].n = IF isnew THEN @ + 1 ELSE @]
     /\ nck' = nck + 1
     /\ IF Ghost THEN LET g == TanOf(r) IN TanSmall(g) /\ tan' = [tan EXCEPT ![c] = g] ELSE UNCHANGED tan
     /\ UNCHANGED <<gv, act, mk, cbn, cbd, gok>> /\ Ok

----------------------------------------------------------------------------
(* tapes and activation *)
TapeSame == UNCHANGED <<h, cl, mk, cbn, cbd, nck, tan, gv, gok>>
TNew(t, flag) ==
  /\ tp[t].st = "no"
  /\ IF flag /\ act # 0 THEN ret' = <<"exc", "AlreadyActive">> /\ UNCHANGED <<tp, act>>
     ELSE tp' = [tp EXCEPT ![t] = NewTape] /\ act' = (IF flag THEN t ELSE act) /\ Ok
  /\ TapeSame
Activate(t) ==
  /\ tp[t].st = "live"
  /\ IF act # 0 THEN ret' = <<"exc", "AlreadyActive">> /\ UNCHANGED act
     ELSE act' = t /\ Ok
  /\ UNCHANGED tp /\ TapeSame
Deactivate(t) == /\ tp[t].st = "live" /\ act' = (IF act = t THEN 0 ELSE act)
                 /\ UNCHANGED tp /\ TapeSame /\ Ok
DeactAll == /\ act' = 0 /\ UNCHANGED tp /\ TapeSame /\ Ok
Owned(t) == {tp[t].cb[k] : k \in 1..Len(tp[t].cb)}
Gone(t) == [c \in 1..Len(cl) |-> IF cl[c].t = t THEN [cl[c] EXCEPT !.t = 0, !.dn = 1, !.p = 0, !.x = 0] ELSE cl[c]]
TDel(t) == /\ tp[t].st # "no" /\ (tp[t].st = "live" => Alive(t) = {})
           /\ tp' = [tp EXCEPT ![t] = NoTape]
           /\ act' = (IF act = t THEN 0 ELSE act)
           /\ cbd' = cbd \cup Owned(t)
           /\ cl' = Gone(t) /\ mk' = Unmark(t)
           /\ gv' = [gv EXCEPT ![t] = FALSE]
           /\ UNCHANGED <<h, cbn, nck, tan, gok>> /\ Ok
Reloc(t, u) == [c \in 1..Len(cl) |-> IF cl[c].t = u THEN [cl[c] EXCEPT !.t = t]
                                     ELSE IF cl[c].t = t THEN [cl[c] EXCEPT !.t = 0, !.dn = 1, !.p = 0, !.x = 0] ELSE cl[c]]
TMoveTo(t, u) ==
  /\ tp' = [tp EXCEPT ![t] = tp[u], ![u] = [NoTape EXCEPT !.st = "mv"]]
  /\ act' = IF act = u THEN t ELSE IF act = t THEN 0 ELSE act
  /\ cl' = Reloc(t, u)
  /\ mk' = [k \in 1..NP |-> IF mk[k].t = u THEN [mk[k] EXCEPT !.t = t]
                            ELSE IF mk[k].t = t THEN [t |-> 0, p |-> 0] ELSE mk[k]]
  /\ gv' = [gv EXCEPT ![t] = gv[u], ![u] = FALSE]
  /\ UNCHANGED <<h, cbn, nck, tan, gok>> /\ Ok
TMove(t, u) == /\ tp[t].st = "no" /\ tp[u].st = "live" /\ t # u /\ TMoveTo(t, u) /\ UNCHANGED cbd
TMoveAsg(t, u) ==
  /\ tp[t].st # "no" /\ tp[u].st = "live"
  /\ IF t = u THEN UNCHANGED <<h, cl, tp, act, mk, cbn, cbd, nck, tan, gv, gok>> /\ Ok
     ELSE /\ tp[t].st = "live" => Alive(t) = {}
          /\ cbd' = cbd \cup Owned(t)
          /\ TMoveTo(t, u)

CbPush(t) == /\ tp[t].st = "live" /\ cbn' = cbn + 1
             /\ tp' = [tp EXCEPT ![t].cb = Append(@, cbn + 1)]
             /\ UNCHANGED <<h, cl, act, mk, cbd, nck, tan, gv, gok>> /\ Ok
CbLast(t) == /\ tp[t].st = "live"
             /\ ret' = IF tp[t].cb = <<>> THEN <<"exc", "OutOfRange">> ELSE <<"val", tp[t].cb[Len(tp[t].cb)]>>
             /\ UNCHANGED <<h, cl, tp, act, mk, cbn, cbd, nck, tan, gv, gok>>
\* the popped callback is handed to the caller, who destroys it
CbPop(t) == /\ tp[t].st = "live"
            /\ IF tp[t].cb = <<>> THEN ret' = <<"exc", "OutOfRange">> /\ UNCHANGED <<tp, cbd>>
               ELSE /\ tp' = [tp EXCEPT ![t].cb = SubSeq(@, 1, Len(@) - 1)]
                    /\ cbd' = cbd \cup {tp[t].cb[Len(tp[t].cb)]} /\ Ok
            /\ UNCHANGED <<h, cl, act, mk, cbn, nck, tan, gv, gok>>

\* access by a slot nobody owns
Bad(t, w) == /\ tp[t].st = "live"
             /\ w = "bnd" => tp[t].in
             /\ ret' = IF w \in {"cder"} THEN <<"dexc", IF tp[t].in THEN "OutOfRange" ELSE "any">>
                       ELSE <<"exc", "OutOfRange">>
             /\ UNCHANGED <<h, cl, tp, act, mk, cbn, cbd, nck, tan, gv, gok>>

----------------------------------------------------------------------------
Do(o) ==
  CASE o[1] = "new"  -> NewH(o[2], o[3])
    [] o[1] = "reg"  -> Register(o[2])
    [] o[1] = "rgo"  -> Register(o[2])
    [] o[1] = "asg"  -> Assign(o[2], o[3], o[4], o[5], o[6], o[7])
    [] o[1] = "ctr"  -> Ctor(o[2], o[3], o[4], o[5], o[6], o[7])
    [] o[1] = "set"  -> SetC(o[2], o[3])
    [] o[1] = "cpa"  -> CopyAsg(o[2], o[3])
    [] o[1] = "cpc"  -> CopyCtor(o[2], o[3])
    [] o[1] = "cmp"  -> Comp(o[2], o[3], o[4], o[5])
    [] o[1] = "adc"  -> AddC(o[2], o[3])
    [] o[1] = "pin"  -> PostInc(o[2])
    [] o[1] = "rpt"  -> Repeat(o[2], o[3], o[4])
    [] o[1] = "mvc"  -> MoveCtor(o[2], o[3])
    [] o[1] = "mva"  -> MoveAsg(o[2], o[3])
    [] o[1] = "swp"  -> Swap(o[2], o[3])
    [] o[1] = "del"  -> Del(o[2])
    [] o[1] = "vrt"  -> Rotate(o[2], o[3])
    [] o[1] = "vrv"  -> Reverse(o[2], o[3])
    [] o[1] = "vst"  -> Sort(o[2], o[3])
    [] o[1] = "ver"  -> Erase(o[2], o[3])
    [] o[1] = "vin"  -> Insert(o[2], o[3], o[4])
    [] o[1] = "sed"  -> Seed(o[2], o[3], FALSE)
    [] o[1] = "inc"  -> Seed(o[2], o[3], TRUE)
    [] o[1] = "get"  -> Get(o[2])
    [] o[1] = "tgt"  -> TGet(o[2])
    [] o[1] = "nrc"  -> NewRec(o[2])
    [] o[1] = "cla"  -> ClearAll(o[2])
    [] o[1] = "cld"  -> ClearDer(o[2])
    [] o[1] = "adj"  -> Sweep(o[2], 0)
    [] o[1] = "mrk"  -> Mark(o[2], o[3])
    [] o[1] = "adt"  -> mk[o[2]].t # 0 /\ Sweep(mk[o[2]].t, mk[o[2]].p)
    [] o[1] = "rst"  -> ResetTo(o[2])
    [] o[1] = "cda"  -> ClearAfter(o[2])
    [] o[1] = "ckp"  -> Ckpt(o[2], o[3], o[4], o[5], o[6], o[7])
    [] o[1] = "tnw"  -> TNew(o[2], o[3] = 1)
    [] o[1] = "act"  -> Activate(o[2])
    [] o[1] = "dea"  -> Deactivate(o[2])
    [] o[1] = "daa"  -> DeactAll
    [] o[1] = "tdl"  -> TDel(o[2])
    [] o[1] = "tmv"  -> TMove(o[2], o[3])
    [] o[1] = "tma"  -> TMoveAsg(o[2], o[3])
    [] o[1] = "cbp"  -> CbPush(o[2])
    [] o[1] = "cbl"  -> CbLast(o[2])
    [] o[1] = "cbo"  -> CbPop(o[2])
    [] o[1] = "bad"  -> Bad(o[2], o[3])

Live == {i \in H : h[i].st = "ok"}
LiveT == {t \in T : tp[t].st = "live"}
Cand(cat) == \* candidate calls of a category
  CASE cat = "new" -> {<<"new", i, v>> : i \in Pick({j \in H : h[j].st = "no"}), v \in Pick(Vals)}
    [] cat = "tgt" -> {<<cat, i, cl[h[i].c].t>> : i \in Pick({j \in Live : Reg(j)})}
    [] cat \in {"reg", "rgo", "pin", "get"} -> {<<cat, i>> : i \in Pick(Live)}
    [] cat = "del" -> {<<cat, i>> : i \in Pick({j \in H : h[j].st # "no"})}
    [] cat \in {"asg", "ctr"} ->
         UNION {{<<cat, i, f, a, b, ca, cb>> :
                   b \in (IF f \in {"lin", "mul", "poly"} THEN Pick(Live) ELSE {a}),
                   ca \in (IF f \in {"lin", "one", "poly"} THEN Pick(Coefs) ELSE IF f = "rsub" THEN Pick(Vals) ELSE {0}),
                   cb \in (IF f = "lin" THEN Pick(Coefs) ELSE {0})} :
                 i \in Pick(IF cat = "asg" THEN {j \in H : h[j].st # "no"} ELSE {j \in H : h[j].st = "no"}),
                 f \in Pick(Forms), a \in Pick(Live)}
    [] cat \in {"set", "adc"} -> {<<cat, i, v>> : i \in Pick({j \in H : h[j].st # "no"}), v \in Pick(Vals)}
    [] cat = "cpa" -> {<<cat, i, a>> : i \in Pick({j \in H : h[j].st # "no"}), a \in Pick(Live)}
    [] cat = "cpc" -> {<<cat, i, a>> : i \in Pick({j \in H : h[j].st = "no"}), a \in Pick(Live)}
    [] cat = "cmp" -> {<<cat, i, k, a, c>> : i \in Pick(Live), k \in Pick({"add", "sub", "mul"}), a \in Pick(Live), c \in {0}}
                      \cup {<<cat, i, "mulc", 0, c>> : i \in Pick(Live), c \in Pick(Coefs)}
                      \cup {<<cat, i, k, 0, 0>> : i \in Pick(Live), k \in Pick({"pre", "prd"})}
    [] cat = "mvc" -> {<<cat, i, j>> : i \in Pick({k \in H : h[k].st = "no"}), j \in Pick(Live)}
    [] cat = "mva" -> {<<cat, i, j>> : i \in Pick({k \in H : h[k].st # "no"}), j \in Pick(Live)}
    [] cat = "swp" -> {<<cat, i, j>> : i \in Pick(Live), j \in Pick(Live)}
    [] cat \in {"vrt", "vrv", "vst", "ver"} -> {<<cat, i, j>> : i \in Pick(Live), j \in Pick(Live)}
    [] cat = "vin" -> {<<cat, i, j, a>> : i \in Pick(Live), j \in Pick(Live), a \in Pick(Live)}
    [] cat \in {"sed", "inc"} -> {<<cat, i, s>> : i \in Pick(Live), s \in Pick(Seeds)}
    [] cat \in {"nrc", "cla", "cld", "adj", "cbp", "cbl", "cbo"} -> {<<cat, t>> : t \in Pick(LiveT)}
    [] cat \in {"act", "dea"} -> {<<cat, t>> : t \in Pick(LiveT)}
    [] cat = "tdl" -> {<<cat, t>> : t \in Pick({u \in T : tp[u].st # "no"})}
    [] cat = "mrk" -> {<<cat, k, t>> : k \in Pick(1..NP), t \in Pick(LiveT)}
    [] cat \in {"adt", "rst", "cda"} -> {<<cat, k>> : k \in Pick({j \in 1..NP : mk[j].t # 0})}
    [] cat = "ckp" -> {<<cat, i, a, b, ca, cb, k>> : i \in Pick(H), a \in Pick(Live), b \in Pick(Live),
                         ca \in Pick(Coefs), cb \in Pick(Coefs \cup {0}), k \in Pick(Kinds)}
    [] cat = "tnw" -> {<<cat, t, f>> : t \in Pick({u \in T : tp[u].st = "no"}), f \in Pick({0, 1})}
    [] cat = "daa" -> {<<cat>>}
    [] cat = "tmv" -> {<<cat, t, u>> : t \in Pick({w \in T : tp[w].st = "no"}), u \in Pick(LiveT)}
    [] cat = "tma" -> {<<cat, t, u>> : t \in Pick({w \in T : tp[w].st # "no"}), u \in Pick(LiveT)}
    [] cat = "bad" -> {<<cat, t, w>> : t \in Pick(LiveT), w \in Pick({"der", "cder", "setd", "inca", "gra", "bnd"})}

Obs == \* what the driver compares after the call
  [h |-> [i \in H |-> <<(CASE h[i].st = "no" -> 0 [] h[i].st = "ok" -> 1 [] h[i].st = "mv" -> 2),
                        h[i].v, IF h[i].c # 0 THEN cl[h[i].c].t ELSE 0>>],
   t |-> [t \in T |-> <<(CASE tp[t].st = "no" -> 0 [] tp[t].st = "live" -> 1 [] tp[t].st = "mv" -> 2),
                        tp[t].n, Len(tp[t].cb), Len(tp[t].s)>>],
   a |-> act, k |-> Cardinality(cbd)]
DObs == \* adjoints of registered live handles where specified
  [i \in H |-> IF h[i].st = "ok" /\ h[i].c # 0 /\ cl[h[i].c].z = 0 /\ cl[h[i].c].x = 0
                  /\ cl[h[i].c].t # 0
                  /\ tp[cl[h[i].c].t].st = "live" /\ tp[cl[h[i].c].t].in
                  /\ ReadOK(cl[h[i].c].t, h[i].c)
               THEN <<1, tp[cl[h[i].c].t].d[h[i].c]>> ELSE <<0, 0>>]

\* calls on variables that must leave every tape as it was
VarOps == {"vrt", "vrv", "vst", "ver", "vin", "new", "reg", "rgo", "asg", "ctr", "set", "cpa", "cpc", "cmp", "adc", "pin", "mvc", "mva",
           "swp", "del", "sed", "inc", "get", "tgt", "bad", "cld", "act", "dea", "daa", "mrk", "cda"}
NoRec(o) == o[1] \in VarOps /\ \A t \in T : tp'[t].s = tp[t].s
BrokenOK(o) == \A t \in T : tp[t].br = 0 \/ o[1] = "nrc" \/ (tp[t].br \notin Hard /\ o[1] \in {"del", "cla", "new"})
Step(o) == /\ BrokenOK(o)
           /\ Do(o)
           /\ hist' = Append(hist, IF Sim THEN [o |-> o, r |-> ret', n |-> NoRec(o), s |-> Obs', d |-> DObs']
                                   ELSE [o |-> o, r |-> ret', n |-> NoRec(o)])

Next == IF Len(hist) < Len(Prefix) THEN Step(Prefix[Len(hist) + 1])
        ELSE IF Plan # <<>> THEN
             LET k == Len(hist) - Len(Prefix) + 1
             IN /\ k <= Len(Plan)
                /\ \/ \E cat \in Plan[k].cats : \E o \in Cand(cat) : Step(o)
                   \/ \E o \in Plan[k].ops : Step(o)
        ELSE /\ Len(hist) < Len(Prefix) + MaxLen
             /\ \/ \E cat \in PickN(Cats) : \E o \in Cand(cat[1]) : Step(o)
                \/ Sim /\ UNCHANGED vars

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* properties of the specification *)
TypeOK == /\ act \in 0..NT
          /\ \A i \in H : h[i].c \in 0..Len(cl)
GradientOK == gok                                                 \* C01, C08
CellsOwnedOnce ==                                                 \* C05, C13
  \A i, j \in H : (i # j /\ h[i].c # 0) => h[i].c # h[j].c
CountOK ==                                                        \* C05
  \A t \in T : tp[t].st = "live" => tp[t].n >= Cardinality(Alive(t))
ActiveLive == act # 0 => tp[act].st = "live"                      \* C09, C10
OwnersDisjoint ==                                                 \* C10
  \A t, u \in T : /\ t # u => Owned(t) \cap Owned(u) = {}
                  /\ Owned(t) \cap cbd = {}
PassiveUnregistered == \A i \in H : h[i].st = "no" => h[i].c = 0  \* C13
AdjointsClearedIfNotInit ==                                       \* C06, C07
  \A t \in T : tp[t].st = "live" /\ ~tp[t].in => tp[t].d = ZeroD
LiveCellsOnLiveTape == \A i \in H : h[i].c # 0 => cl[h[i].c].dn = 0

\* throwing calls change nothing (C11)
Rejected == ret'[1] \in {"exc", "dexc"} /\ ret' # <<"exc", "Callback">> =>
              UNCHANGED <<h, cl, tp, act, mk, cbn, cbd, nck, tan, gv>>
RejectedChangesNothing == [][Rejected]_vars
\* a rollback leaves earlier adjoints and statements alone (C06)
ResetIsPrefix == [][\A t \in T : (tp[t].st = "live" /\ tp'[t].st = "live" /\ tp[t].s # <<>> /\ tp'[t].s # <<>>
                                  /\ hist' # hist /\ hist'[Len(hist')].o[1] \in {"rst", "adj", "adt"})
                       => tp'[t].s = SubSeq(tp[t].s, 1, Len(tp'[t].s))]_vars

\* emission of behaviours
Emit == IF Sim
        THEN (TLCGet("level") >= SimDepth => PrintT("@@" \o ToJson(hist')))
        ELSE (Len(hist') > Len(Prefix) + (IF Plan = <<>> THEN 0 ELSE Len(Plan) - 1) => PrintT("@@" \o ToJson([x |-> SubSeq(hist', Len(Prefix) + 1, Len(hist')), s |-> Obs', d |-> DObs'])))
=============================================================================
