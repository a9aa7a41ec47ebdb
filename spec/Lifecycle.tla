----------------------------- MODULE Lifecycle ------------------------------
(* Histories of constructing, training, asking, cloning, copying and          *)
(* re-parameterising several objects.  What an object answers depends only on *)
(* the parameters it had at its last successful training and on the data of   *)
(* that training.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Handles, Params, Data, Depth, Random

None == <<>>
VARIABLES objs,   \* handle -> None or [par, model]; model is None or <<par, data>>
          hist
vars == <<objs, hist>>
Pick(S) == IF Random /\ S # {} THEN {RandomElement(S)} ELSE S

Live == {h \in Handles : objs[h] # None}
Log(op) == hist' = Append(hist, op)
More == Len(hist) < Depth

Init == objs = [h \in Handles |-> None] /\ hist = <<>>

New == More /\ \E h \in Pick(Handles), p \in Pick(Params) :
  /\ objs' = [objs EXCEPT ![h] = [par |-> p, model |-> None]]
  /\ Log([op |-> "new", h |-> h, p |-> p])
Fit == More /\ \E h \in Pick(Live), d \in Pick(Data) :
  /\ objs' = [objs EXCEPT ![h].model = <<objs[h].par, d>>]
  /\ Log([op |-> "fit", h |-> h, d |-> d])
\* training with an inadmissible target is rejected before anything is learned
Reject == More /\ \E h \in Pick(Live), d \in Pick(Data) :
  /\ UNCHANGED objs
  /\ Log([op |-> "reject", h |-> h, d |-> d])
\* a training that breaks off midway leaves an object whose answers nothing is
\* said about, but the next training starts afresh
Unsaid == <<0, 0>>
Break == More /\ \E h \in Pick(Live), d \in Pick(Data) :
  /\ objs' = [objs EXCEPT ![h].model = Unsaid]
  /\ Log([op |-> "break", h |-> h, d |-> d])
\* parameters take effect at the next training
SetParams == More /\ \E h \in Pick(Live), p \in Pick(Params) :
  /\ p # objs[h].par
  /\ objs' = [objs EXCEPT ![h].par = p]
  /\ Log([op |-> "set", h |-> h, p |-> p])
Clone == More /\ \E h \in Pick(Live), k \in Pick(Handles) :
  /\ objs' = [objs EXCEPT ![k] = [par |-> objs[h].par, model |-> None]]
  /\ Log([op |-> "clone", h |-> h, k |-> k])
Copy == More /\ \E h \in Pick(Live), k \in Pick(Handles) :
  /\ k # h
  /\ objs' = [objs EXCEPT ![k] = objs[h]]
  /\ Log([op |-> "copy", h |-> h, k |-> k])
Ask == More /\ \E h \in Pick(Live) :
  /\ UNCHANGED objs
  /\ Log([op |-> "ask", h |-> h, model |-> objs[h].model])

Next == New \/ Fit \/ Break \/ Reject \/ SetParams \/ Clone \/ Copy \/ Ask
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* an object answers from parameters and data it was given in its own history
RECURSIVE ParAt(_, _), ModelAt(_, _)
ParAt(h, n) ==
  IF n = 0 THEN 0
  ELSE LET e == hist[n] IN
       IF e.op \in {"new", "set"} /\ e.h = h THEN e.p
       ELSE IF e.op \in {"clone", "copy"} /\ e.k = h THEN ParAt(e.h, n - 1)
       ELSE ParAt(h, n - 1)
ModelAt(h, n) ==
  IF n = 0 THEN None
  ELSE LET e == hist[n] IN
       IF e.op = "fit" /\ e.h = h THEN <<ParAt(h, n - 1), e.d>>
       ELSE IF e.op = "break" /\ e.h = h THEN Unsaid
       ELSE IF e.op = "new" /\ e.h = h THEN None
       ELSE IF e.op = "clone" /\ e.k = h THEN None
       ELSE IF e.op = "copy" /\ e.k = h THEN ModelAt(e.h, n - 1)
       ELSE ModelAt(h, n - 1)
FromHistory == \A h \in Live : objs[h].par = ParAt(h, Len(hist)) /\ objs[h].model = ModelAt(h, Len(hist))
\* operations touch at most one object
OneAtATime == [][Cardinality({h \in Handles : objs'[h] # objs[h]}) <= 1]_vars
Useful == \E h \in Live : objs[h].model \notin {None, Unsaid}
Emit == Len(hist) = Depth /\ Useful => PrintT("@" \o ToJson([hist |-> hist, final |-> [h \in Live |-> objs[h].model]]))
=============================================================================
