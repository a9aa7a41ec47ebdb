------------------------------ MODULE RegType ------------------------------
(* Where a smoothed value is defined.  A grid of bins in one or more         *)
(* dimensions, each with a total weight; the wrapped smoother answers every  *)
(* question.  Probes may lie outside the grid or miss a coordinate.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Shapes,   \* set of grid shapes <<n1>>, <<n1, n2>>, ...
          Weights,  \* possible bin weights (0: bin without data)
          Batches,  \* number of probes asked at once
          Random

Missing == -1000
Types == {"discontinuous", "interpolating", "extrapolating"}
VARIABLES shape, weight, type, batch, pc
vars == <<shape, weight, type, batch, pc>>
Pick(S) == IF Random THEN {RandomElement(S)} ELSE S

Grid(s) == {c \in [DOMAIN s -> 0..8] : \A d \in DOMAIN s : c[d] < s[d]}
Coords(s) == [DOMAIN s -> {Missing, -2, -1} \cup 0..8]
InRange(c) == \A d \in DOMAIN shape : c[d] >= 0 /\ c[d] < shape[d]
HasMissing(c) == \E d \in DOMAIN shape : c[d] = Missing

Init ==
  /\ shape \in Pick(Shapes)
  /\ weight \in (IF Random THEN {TLCEval([c \in Grid(shape) |-> RandomElement(Weights)])} ELSE [Grid(shape) -> Weights])
  /\ type \in Pick(Types)
  /\ batch = <<>> /\ pc = "ask"
\* a further row of the batch to be predicted
Probes(s) == {c \in Coords(s) : \A d \in DOMAIN s : c[d] <= s[d] + 1}
Ask ==
  /\ pc = "ask" /\ Len(batch) < Batches
  /\ \E c \in Pick(Probes(shape)) : batch' = Append(batch, c)
  /\ UNCHANGED <<shape, weight, type, pc>>
Answer == pc = "ask" /\ batch # <<>> /\ pc' = "done" /\ UNCHANGED <<shape, weight, type, batch>>
Next == Ask \/ Answer
Spec == Init /\ [][Next]_vars

\* "value": the wrapped smoother's value, "none": undefined, "free": not decided here
Answers(c) ==
  IF HasMissing(c) THEN "free"
  ELSE IF type = "extrapolating" THEN "value"
  ELSE IF ~InRange(c) THEN "none"
  ELSE IF type = "discontinuous" /\ weight[c] = 0 THEN "none"
  ELSE "value"

-----------------------------------------------------------------------------
NeverOutside == type # "extrapolating" => \A c \in Probes(shape) : ~HasMissing(c) /\ ~InRange(c) => Answers(c) = "none"
Everywhere == type = "extrapolating" => \A c \in Probes(shape) : Answers(c) # "none"
SeenBins == \A c \in Grid(shape) : weight[c] > 0 => Answers(c) = "value"
Nested == \A c \in Grid(shape) : type = "interpolating" => Answers(c) = "value"

SeqOf(f) == [i \in 1..Len(f) |-> f[i]]
Emit == pc = "done" =>
  PrintT("@" \o ToJson([shape |-> shape, type |-> type, weight |-> {<<c, weight[c]>> : c \in DOMAIN weight},
                        batch |-> [i \in DOMAIN batch |-> <<batch[i], Answers(batch[i])>>]]))
=============================================================================
