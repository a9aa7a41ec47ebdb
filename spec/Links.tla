------------------------------- MODULE Links -------------------------------
(* Link functions.  Contributions are added on the link scale, in units of   *)
(* ln 2 (of one for the identity); the mean moves along: doubled, its odds   *)
(* doubled, or raised by one.                                                *)
EXTENDS Integers, Sequences, TLC, Json
R == INSTANCE Rational

CONSTANTS Kind, Steps, Bound, MaxLen, Classes, MaxClasses

VARIABLES link, mean, path, bag
vars == <<link, mean, path, bag>>

RECURSIVE Two(_)
Two(n) == IF n = 0 THEN 1 ELSE 2 * Two(n - 1)
Power(s) == IF s >= 0 THEN <<Two(s), 1>> ELSE <<1, Two(-s)>>
Neutral == CASE Kind = "log" -> <<1, 1>> [] Kind = "logit" -> <<1, 2>> [] Kind = "identity" -> <<0, 1>>
Odds(p) == R!Div(p, R!Sub(<<1, 1>>, p))
FromOdds(o) == R!Div(o, R!Add(<<1, 1>>, o))
Moved(m, s) ==
  CASE Kind = "log" -> R!Mul(m, Power(s))
    [] Kind = "logit" -> FromOdds(R!Mul(Odds(m), Power(s)))
    [] Kind = "identity" -> R!Add(m, R!Q(s))
\* the mean belonging to a position, computed at once
Unlinked(l) == Moved(Neutral, l)

\* which collections of values the function can be applied to
Allowed(c) ==
  CASE Kind = "log" -> c \in {"tiny", "half", "one", "two", "inf"}
    [] Kind = "logit" -> c \in {"zero", "tiny", "half", "one"}
    [] Kind = "identity" -> TRUE
InRange == \A i \in DOMAIN bag : Allowed(bag[i])

Init == link = 0 /\ mean = Neutral /\ path = <<>> /\ bag = <<>>
Contribute ==
  /\ bag = <<>> /\ Len(path) < MaxLen
  /\ \E s \in Steps :
       /\ link + s \in -Bound..Bound
       /\ link' = link + s /\ mean' = Moved(mean, s) /\ path' = Append(path, [link |-> link', mean |-> mean'])
  /\ UNCHANGED bag
Collect == path = <<>> /\ Len(bag) < MaxClasses /\ (\E c \in Classes : bag' = Append(bag, c)) /\ UNCHANGED <<link, mean, path>>
Next == Contribute \/ Collect
Spec == Init /\ [][Next]_vars

Inverse == mean = Unlinked(link)
Supported == CASE Kind = "log" -> R!Less(R!Q(0), mean)
               [] Kind = "logit" -> R!Less(R!Q(0), mean) /\ R!Less(mean, R!Q(1))
               [] Kind = "identity" -> TRUE
Rises == \A i, j \in DOMAIN path : path[i].link < path[j].link <=> R!Less(path[i].mean, path[j].mean)
Emit == (path # <<>> => PrintT("@" \o ToJson([kind |-> Kind, path |-> path])))
        /\ (bag # <<>> => PrintT("@" \o ToJson([kind |-> Kind, bag |-> bag, ok |-> InRange])))
=============================================================================
