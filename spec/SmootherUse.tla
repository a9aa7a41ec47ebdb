---------------------------- MODULE SmootherUse ----------------------------
(* What a smoother is shown in an estimation and what becomes of its answer. *)
(* The grid of a group comes from BinAddress.  Estimates and uncertainties   *)
(* of the bins and the answers of the smoother are inputs, picked by a salt; *)
(* estimates are in 1/16, rates in 1/4, updates in 1/64.  Location models    *)
(* move the answers of a group so that their weighted mean is zero.          *)
EXTENDS BinAddress, Rational

CONSTANTS Weights, GroupLists,   \* sequences of groups
          MaxPass, Salts, RateLists,
          Centring           \* subset of BOOLEAN: location model or not

VARIABLES w, groups, quiet, centred, salt, rates, pass, gi, param, calls
allvars == <<rows, pc, w, groups, quiet, centred, salt, rates, pass, gi, param, calls>>

Undefined == 9999
Cells(g) == LET nb == NB(g) IN {t \in [DOMAIN g -> 0..5] : InRange(t, nb)}
Place(t) == IF IsMissing(t) THEN 5 ELSE Lex(t, [i \in DOMAIN t |-> 7])
Pick(n, t, k) == (((salt * (n * 29 + k * 17 + Place(t) * 41 + salt)) \div 7) % 33) - 16
Turn == pass * Len(groups) + gi
Est(t) == Pick(Turn, t, 1)
Unc(t) == 1 + Pick(Turn, t, 2) + 16
Answer(t) == LET a == Pick(Turn, t, 3) IN IF a % 7 = 6 THEN Undefined ELSE a
MissingOf(g) == [i \in DOMAIN g |-> Missing]

RECURSIVE SumOver(_)
SumOver(S) == IF S = {} THEN 0 ELSE LET i == CHOOSE j \in S : TRUE IN w[i] + SumOver(S \ {i})
WeightOf(g, t) == SumOver(Sharing(g, t))

RandomOf(S) == RandomElement(IF Len(rows) >= 0 THEN S ELSE {})
Choose(S) == IF Random THEN {RandomOf(S)} ELSE S

UInit == /\ Init /\ w = <<>> /\ groups = <<>> /\ quiet = {} /\ centred = FALSE /\ salt = 0 /\ rates = <<>> /\ pass = 0 /\ gi = 0 /\ param = <<>> /\ calls = <<>>
URow == /\ AddRow
        /\ \E x \in Choose(Weights) : w' = Append(w, x)
        /\ UNCHANGED <<groups, quiet, centred, salt, rates, pass, gi, param, calls>>
Begin == /\ pc = "collect" /\ Len(rows) >= MinRows /\ SumOver(DOMAIN rows) > 0
         /\ \E gl \in Choose(GroupLists), q \in Choose(SUBSET (1..NCols)), s \in Choose(Salts), c \in Choose(Centring), rl \in Choose(RateLists) :
              /\ groups' = gl /\ quiet' = q /\ centred' = c /\ salt' = s /\ rates' = rl
              /\ param' = [k \in DOMAIN gl |-> [t \in Cells(gl[k]) \cup {MissingOf(gl[k])} |-> Q(0)]]
         /\ pc' = "train" /\ pass' = 0 /\ gi' = 1
         /\ UNCHANGED <<rows, w, calls>>
G == groups[gi]
\* missing values of a group are not learned if one of its columns is declared so
NotLearned(g) == \E i \in DOMAIN g : g[i] \in quiet
Raw(t) == IF IsMissing(t) THEN IF NotLearned(G) THEN 0 ELSE Est(t) * rates[pass + 1]
             ELSE IF Answer(t) = Undefined THEN 0 ELSE Answer(t) * rates[pass + 1]
\* a missing value that is not learned takes no part in the mean
Averaged == Cells(G) \cup (IF NotLearned(G) THEN {} ELSE {MissingOf(G)})
RECURSIVE Total(_, _)
Total(F(_), S) == IF S = {} THEN 0 ELSE LET t == CHOOSE u \in S : TRUE IN F(t) + Total(F, S \ {t})
Mean(wt) == LET W(t) == wt[t]
                V(t) == wt[t] * Raw(t)
            IN  IF Total(W, Averaged) = 0 THEN Q(0) ELSE Frac(Total(V, Averaged), Total(W, Averaged))
Update(t, m) == IF ~centred THEN Q(Raw(t))
                ELSE IF IsMissing(t) /\ NotLearned(G) THEN Q(0)
                ELSE Sub(Q(Raw(t)), m)
Estimate ==
  /\ pc = "train"
  /\ LET cells == TLCEval(Cells(G))
         none == MissingOf(G)
         wt == TLCEval([t \in cells \cup {none} |-> WeightOf(G, t)])
         m == TLCEval(IF centred THEN Mean(wt) ELSE Q(0))
         new == TLCEval([t \in cells \cup {none} |-> Add(param[gi][t], Update(t, m))])
     IN  /\ param' = [param EXCEPT ![gi] = new]
         /\ calls' = Append(calls, [group |-> gi, pass |-> pass,
              shown |-> {<<t, wt[t], Unc(t), Est(t)>> : t \in cells},
              missing |-> <<wt[none], Unc(none), Est(none)>>,
              answer |-> {<<t, Answer(t)>> : t \in cells},
              after |-> [i \in DOMAIN rows |-> new[IF IsMissing(Tuple(G, rows[i])) THEN none ELSE Tuple(G, rows[i])]]])
  /\ IF gi < Len(groups) THEN gi' = gi + 1 /\ UNCHANGED <<pass, pc>>
     ELSE /\ gi' = 1 /\ pass' = pass + 1
          /\ pc' = IF pass + 1 = Len(rates) THEN "done" ELSE "train"
  /\ UNCHANGED <<rows, w, groups, quiet, centred, salt, rates>>
UNext == URow \/ Begin \/ Estimate
USpec == UInit /\ [][UNext]_allvars

-----------------------------------------------------------------------------
\* every row is in exactly one bin shown or in the missing bin: no weight is lost or counted twice
RECURSIVE SumShown(_)
SumShown(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x[2] + SumShown(S \ {x})
\* (judged at every call, when it is the last one)
Last == IF calls = <<>> THEN {} ELSE {Len(calls)}
WeightKept == \A k \in Last : SumShown(calls[k].shown) + calls[k].missing[1] = SumOver(DOMAIN rows)
\* the grid is complete, whatever the rows
GridShown == \A k \in Last :
  Cardinality(calls[k].shown) = LET nb == NB(groups[calls[k].group]) IN ProdTo(nb, Len(nb))
\* one call per group and pass, in order
Order == \A k \in Last : calls[k].group = 1 + ((k - 1) % Len(groups)) /\ calls[k].pass = (k - 1) \div Len(groups)
\* an update is at most the rate times the largest answer
Bounded == pc = "done" => \A k \in DOMAIN param : \A t \in DOMAIN param[k] : Between(param[k][t], Q(-2 * 16 * 4 * MaxPass), Q(2 * 16 * 4 * MaxPass))
\* parameters of location models stay balanced over the bins that are learned
RECURSIVE Balance(_, _, _)
Balance(k, g, S) == IF S = {} THEN Q(0) ELSE LET t == CHOOSE u \in S : TRUE
                                             IN  Add(Mul(Q(WeightOf(g, t)), param[k][t]), Balance(k, g, S \ {t}))
Balanced == centred /\ pc = "done" => \A k \in DOMAIN param :
  IsZero(Balance(k, groups[k], Cells(groups[k]) \cup (IF NotLearned(groups[k]) THEN {} ELSE {MissingOf(groups[k])})))

UEmit == pc = "done" =>
  PrintT("@" \o ToJson([rows |-> rows, w |-> w, groups |-> groups, quiet |-> quiet, centred |-> centred, rates |-> rates, calls |-> calls,
    param |-> [k \in DOMAIN param |-> {<<t, param[k][t]>> : t \in DOMAIN param[k]}]]))
=============================================================================
