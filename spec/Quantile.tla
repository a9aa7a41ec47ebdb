------------------------------ MODULE Quantile ------------------------------
(* Weighted quantiles of integer targets, the interpolation over ties and    *)
(* the pinball loss.  The level is Level / Scale; losses are integers in     *)
(* units of 1 / Scale before division by the total weight.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rational

CONSTANTS Bins, Targets, Weights, Levels, Scale, MinRows, MaxRows, Random

VARIABLES rows, level, pc
vars == <<rows, level, pc>>

Draw(S) == RandomElement(IF Len(rows) >= 0 THEN S ELSE {})
AllRows == [bin : Bins, y : Targets, w : Weights]
RandomRow == [bin |-> Draw(Bins), y |-> Draw(Targets), w |-> Draw(Weights)]

Init == rows = <<>> /\ level = 0 /\ pc = "collect"
AddRow ==
  /\ pc = "collect" /\ Len(rows) < MaxRows
  /\ \E r \in (IF Random THEN {RandomRow} ELSE AllRows) : rows' = Append(rows, r)
  /\ UNCHANGED <<level, pc>>
Choose ==
  /\ pc = "collect" /\ Len(rows) >= MinRows /\ (\E i \in DOMAIN rows : rows[i].w > 0)
  /\ \E l \in (IF Random THEN {Draw(Levels)} ELSE Levels) : level' = l
  /\ pc' = "done" /\ UNCHANGED rows
Next == AddRow \/ Choose
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
RECURSIVE SumOver(_, _)
SumOver(F(_), I) == IF I = {} THEN 0 ELSE LET i == CHOOSE x \in I : TRUE IN F(i) + SumOver(F, I \ {i})
Held(I) == {i \in I : rows[i].w > 0}
W(I) == LET f(i) == rows[i].w IN SumOver(f, I)
Ys(I) == {rows[i].y : i \in Held(I)}
MinOf(S) == CHOOSE m \in S : \A x \in S : m <= x
Upto(I, v) == W({i \in I : rows[i].y <= v})
Below(I, v) == W({i \in I : rows[i].y < v})

\* smallest value up to which at least the share level of the weight lies
Plain(I, l) == MinOf({v \in Ys(I) : Scale * Upto(I, v) >= l * W(I)})
\* ties are spread evenly over the unit above the value
Spread(I, l) ==
  LET v == Plain(I, l)
      ties == Upto(I, v) - Below(I, v)
      pos == (l * W(I)) \div Scale - Below(I, v)
  IN  IF ties <= 1 THEN <<0, 1>>
      ELSE IF pos <= 0 THEN <<0, 1>> ELSE IF pos >= ties - 1 THEN <<1, 1>> ELSE Frac(pos, ties - 1)
Level(I, l) == Add(Q(Plain(I, l)), Spread(I, l))
\* pinball loss at value v
Loss(I, l, v) ==
  LET f(i) == rows[i].w * (IF rows[i].y < v THEN (Scale - l) * (v - rows[i].y) ELSE l * (rows[i].y - v))
  IN  SumOver(f, I)
Best(I, l) == MinOf({Loss(I, l, v) : v \in Ys(I)})

All == DOMAIN rows
\* the quantile minimises the pinball loss
Optimal == pc = "done" => Loss(All, level, Plain(All, level)) = Best(All, level)
\* also against every other integer around
NoBetter == pc = "done" => \A v \in Targets \cup {y + 1 : y \in Targets} \cup {y - 1 : y \in Targets} : Loss(All, level, v) >= Best(All, level)
\* levels do not cross
Ordered == pc = "done" => \A l \in Levels : l <= level => Leq(Level(All, l), Level(All, level))
Within == pc = "done" => Leq(Q(Plain(All, level)), Level(All, level)) /\ Leq(Level(All, level), Q(Plain(All, level) + 1))

InBin(b) == {i \in All : rows[i].bin = b}
Full == {b \in Bins : Held(InBin(b)) # {}}
Emit == pc = "done" =>
  PrintT("@" \o ToJson([rows |-> rows, level |-> level, scale |-> Scale, base |-> Level(All, level), plain |-> Plain(All, level),
    total |-> W(All), best |-> Best(All, level),
    losses |-> {<<v, Loss(All, level, v)>> : v \in Targets},
    bins |-> {[bin |-> b, w |-> W(InBin(b)), best |-> Best(InBin(b), level), at |-> Plain(InBin(b), level)] : b \in Full}]))
=============================================================================
