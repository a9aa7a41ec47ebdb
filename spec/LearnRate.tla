----------------------------- MODULE LearnRate -----------------------------
(* Learning-rate schedules as a process over the passes of a training.       *)
(* A rate is a pair <<num, den>>.  The logistic schedule is linear in its    *)
(* log-odds  ln((1 + rate) / (1 - rate)),  which reach a fixed value Sat in  *)
(* the last pass; for it the pair is the share of Sat.                       *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxPasses   \* all maximal numbers of passes up to this bound

Kinds == {"one", "linear", "half", "logistic"}
VARIABLES kind, max, i, rate, prev
vars == <<kind, max, i, rate, prev>>

RateAt(k, n, m) ==
  CASE k = "one" -> <<1, 1>>
    [] k = "linear" -> <<n, m>>
    [] k = "half" -> IF 2 * n >= m THEN <<1, 1>> ELSE <<2 * n, m>>
    [] k = "logistic" -> <<n, m>>

Init == kind \in Kinds /\ max \in 1..MaxPasses /\ i = 1 /\ rate = RateAt(kind, 1, max) /\ prev = <<0, 1>>
Next == i < max /\ i' = i + 1 /\ prev' = rate /\ rate' = RateAt(kind, i + 1, max) /\ UNCHANGED <<kind, max>>
Spec == Init /\ [][Next]_vars

Leq(a, b) == a[1] * b[2] <= b[1] * a[2]
InRange == rate[1] > 0 /\ Leq(rate, <<1, 1>>)
NeverDecreases == Leq(prev, rate)
StrictUntilOne == kind # "one" => rate = <<1, 1>> \/ ~Leq(rate, prev)
ReachesOne == i = max => rate[1] = rate[2]
HalfWay == kind = "half" => (2 * i >= max <=> rate = <<1, 1>>)
LinearLast == kind = "linear" /\ i < max => rate[1] < rate[2]

Emit == PrintT("@" \o ToJson([kind |-> kind, i |-> i, max |-> max, rate |-> rate, prev |-> prev]))
=============================================================================
