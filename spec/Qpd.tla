--------------------------------- MODULE Qpd --------------------------------
(* Triplets of quantiles and the distributions through them.  A triplet may  *)
(* be stretched, shifted and (unless bounded on one side only) mirrored; the *)
(* distribution through the new triplet is the image of the old one.  The    *)
(* side of the skewness is decided exactly: on the plain scale, on the log   *)
(* scale of the distance from the lower bound, or on the log-odds scale.     *)
EXTENDS Integers, Sequences, TLC, Json, Rational

CONSTANTS Kind, Values, Alphas, Stretches, Shifts, MaxMoves, Random

VARIABLES t, now, moves, alpha, pc
vars == <<t, now, moves, alpha, pc>>

Draw(S) == RandomElement(IF Len(moves) >= 0 THEN S ELSE {})
\* bounds are kept even when the kind does not use them
Triplets == {x \in [l : Values, low : Values, med : Values, high : Values, u : Values] :
               x.l < x.low /\ x.low < x.med /\ x.med < x.high /\ x.high < x.u}
Init == moves = <<>> /\ pc = "start" /\ t = <<>> /\ now = <<>> /\ alpha = 0
Choose ==
  /\ pc = "start"
  /\ \E x \in (IF Random THEN {Draw(Triplets)} ELSE Triplets) : t' = x /\ now' = x
  /\ \E a \in (IF Random THEN {Draw(Alphas)} ELSE Alphas) : alpha' = a
  /\ pc' = "move" /\ UNCHANGED moves
Image(x, m) ==
  CASE m[1] = "stretch" -> [f \in DOMAIN x |-> m[2] * x[f]]
    [] m[1] = "shift" -> [f \in DOMAIN x |-> x[f] + m[2]]
    [] m[1] = "mirror" -> [l |-> -x.u, low |-> -x.high, med |-> -x.med, high |-> -x.low, u |-> -x.l]
Moves == ({"stretch"} \X Stretches) \cup ({"shift"} \X Shifts) \cup (IF Kind = "S" THEN {} ELSE {<<"mirror", 0>>})
Move ==
  /\ pc = "move" /\ Len(moves) < MaxMoves
  /\ \E m \in (IF Random THEN {Draw(Moves)} ELSE Moves) : now' = Image(now, m) /\ moves' = Append(moves, m)
  /\ UNCHANGED <<t, alpha, pc>>
Finish == pc = "move" /\ pc' = "done" /\ UNCHANGED <<t, now, moves, alpha>>
Next == Choose \/ Move \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Sign(a, b) == IF a > b THEN 1 ELSE IF a < b THEN -1 ELSE 0
Odds(x, v) == Frac(v - x.l, x.u - v)
SignQ(a, b) == IF Less(b, a) THEN 1 ELSE IF Less(a, b) THEN -1 ELSE 0
Skew(x) ==
  CASE Kind = "U" -> Sign(x.low + x.high, 2 * x.med)
    [] Kind = "S" -> Sign((x.low - x.l) * (x.high - x.l), (x.med - x.l) * (x.med - x.l))
    [] Kind = "B" -> SignQ(Mul(Odds(x, x.low), Odds(x, x.high)), Mul(Odds(x, x.med), Odds(x, x.med)))
Mirrors == Len(SelectSeq(moves, LAMBDA m : m[1] = "mirror"))
IsOrdered(x) == x.l < x.low /\ x.low < x.med /\ x.med < x.high /\ x.high < x.u
StaysOrdered == pc # "start" => IsOrdered(now)
KeepsSkew == pc # "start" => Skew(now) = (IF Mirrors % 2 = 0 THEN Skew(t) ELSE -Skew(t))
(* a triplet that is symmetric between its bounds is symmetric on the log-odds scale too *)
Centred(x) == x.low + x.high = x.l + x.u /\ 2 * x.med = x.l + x.u
CentredIsSymmetric == (pc # "start" /\ Kind = "B" /\ Centred(t)) => Skew(t) = 0

Emit == pc = "done" => PrintT("@" \o ToJson([kind |-> Kind, alpha |-> alpha, t |-> t, now |-> now, moves |-> moves, skew |-> Skew(t), mirrored |-> Mirrors % 2 = 1]))
=============================================================================
