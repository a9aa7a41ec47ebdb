---------------------------- MODULE Interactions ----------------------------
(* Interaction terms: enumeration of combinations of columns by extending    *)
(* smaller ones, numbering of bin combinations, and selection by score.  The *)
(* score is the share of the target's variation a term explains, as an exact *)
(* fraction: squared correlation with the number for regression, variation   *)
(* between classes for classification.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rational

CONSTANTS NCols, MaxDim, Values, Targets, MinRows, MaxRows, Classify, Scored, Random

VARIABLES terms,   \* sequence of terms (ascending column numbers)
          todo,    \* prefixes still to be extended
          dim, rows, y, pc,
          num      \* numbers of the rows per term, once collected
vars == <<terms, todo, dim, rows, y, num, pc>>
Pick(S) == IF Random THEN {RandomElement(S)} ELSE S

Missing == -1
N == Len(rows)
\* mentions the state: TLC evaluates constant expressions once only
RandomRow == TLCEval([c \in 1..NCols |-> RandomElement(IF N >= 0 THEN Values ELSE {})])
MaxOf(S) == CHOOSE m \in S : \A x \in S : x <= m
\* categories are numbered in ascending order
Bins ==
  LET cats == TLCEval([c \in 1..NCols |-> {rows[i][c] : i \in 1..N} \ {Missing}])
  IN  [i \in 1..N |-> [c \in 1..NCols |-> IF rows[i][c] = Missing THEN Missing ELSE Cardinality({v \in cats[c] : v < rows[i][c]})]]
Combo(b, t, i) == [k \in DOMAIN t |-> b[i][t[k]]]
Incomplete(u) == \E k \in DOMAIN u : u[k] = Missing
RECURSIVE LexFrom(_, _, _), ProdTo(_, _)
LexFrom(u, w, k) == IF k = 0 THEN 0 ELSE LexFrom(u, w, k - 1) * w[k] + u[k]
ProdTo(w, k) == IF k = 0 THEN 1 ELSE w[k] * ProdTo(w, k - 1)
\* combinations are numbered with the last column running fastest, incomplete ones come last
Numbers(b, t) ==
  LET ok == TLCEval({i \in 1..N : ~Incomplete(Combo(b, t, i))})
      w == TLCEval([k \in DOMAIN t |-> IF ok = {} THEN 0 ELSE 1 + MaxOf({b[i][t[k]] : i \in ok})])
  IN  [i \in 1..N |-> IF i \in ok THEN LexFrom(Combo(b, t, i), w, Len(t)) ELSE ProdTo(w, Len(t))]

Init == terms = <<>> /\ todo = {<<c>> : c \in 1..NCols} /\ dim \in Pick(1..MaxDim) /\ rows = <<>> /\ y = <<>> /\ num = <<>> /\ pc = "enumerate"
\* extend a prefix by every later column
Extend ==
  /\ pc = "enumerate"
  /\ \E p \in (IF todo = {} THEN {} ELSE Pick(todo)) :
       LET ext == IF Len(p) < dim THEN {Append(p, c) : c \in (p[Len(p)] + 1)..NCols} ELSE {}
       IN  /\ todo' = (todo \ {p}) \cup ext
           /\ terms' = IF Len(p) > 1 THEN Append(terms, p) ELSE terms
  /\ UNCHANGED <<dim, rows, y, num, pc>>
Enumerated == pc = "enumerate" /\ todo = {} /\ pc' = "collect" /\ UNCHANGED <<terms, todo, dim, rows, y, num>>
AddRow ==
  /\ pc = "collect" /\ Len(rows) < MaxRows
  /\ \E r \in (IF Random THEN {RandomRow} ELSE [1..NCols -> Values]), t \in Pick(Targets) :
       rows' = Append(rows, r) /\ y' = Append(y, t)
  /\ UNCHANGED <<terms, todo, dim, num, pc>>
Score ==
  /\ pc = "collect" /\ Len(rows) >= MinRows /\ pc' = "done"
  /\ LET b == TLCEval(Bins) IN num' = TLCEval([k \in DOMAIN terms |-> Numbers(b, terms[k])])
  /\ UNCHANGED <<terms, todo, dim, rows, y>>
Next == Extend \/ Enumerated \/ AddRow \/ Score
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
RECURSIVE Sum(_, _)
Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum(f, k - 1)
Cross(f, g) == N * Sum([i \in 1..N |-> f[i] * g[i]], N) - Sum(f, N) * Sum(g, N)
\* squared correlation; -1 if the term is constant
Explained(f) ==
  LET vf == Cross(f, f)
      vy == Cross(y, y)
      c == Cross(f, y)
  IN  IF vf = 0 THEN Q(-1) ELSE Mul(Frac(c, vf), Frac(c, vy))
\* variation of the numbers between the classes over their total variation
ClassShare(f) ==
  LET cls == {y[i] : i \in 1..N}
      RECURSIVE B(_)
      B(S) == IF S = {} THEN Q(0)
              ELSE LET k == CHOOSE k \in S : TRUE
                       n == Cardinality({i \in 1..N : y[i] = k})
                       s == Sum([i \in 1..N |-> IF y[i] = k THEN f[i] ELSE 0], N)
                   IN  Add(Frac(s * s, n), B(S \ {k}))
      tot == Sum(f, N)
      all == Sub(Q(Sum([i \in 1..N |-> f[i] * f[i]], N)), Frac(tot * tot, N))
  IN  IF all[1] = 0 THEN Q(-1) ELSE Div(Sub(B(cls), Frac(tot * tot, N)), all)
Scores == [k \in DOMAIN terms |-> IF ~Scored THEN Q(0) ELSE IF Classify THEN ClassShare(num[k]) ELSE Explained(num[k])]
Informative == Cardinality({y[i] : i \in 1..N}) > 1

RECURSIVE Choose_(_, _)
Choose_(n, k) == IF k = 0 THEN 1 ELSE IF n = 0 THEN 0 ELSE Choose_(n - 1, k - 1) + Choose_(n - 1, k)
RECURSIVE Count(_)
Count(k) == IF k < 2 THEN 0 ELSE Choose_(NCols, k) + Count(k - 1)

AllOnce == pc # "enumerate" =>
  /\ Len(terms) = Count(dim)
  /\ \A i, j \in DOMAIN terms : i # j => terms[i] # terms[j]
  /\ \A S \in SUBSET (1..NCols) : Cardinality(S) \in 2..dim => \E i \in DOMAIN terms : {terms[i][k] : k \in DOMAIN terms[i]} = S
Unique == pc = "done" => \A k \in DOMAIN terms : \A i, j \in 1..N :
  LET u == Combo(rows, terms[k], i)
      v == Combo(rows, terms[k], j)
  IN  num[k][i] = num[k][j] <=> (u = v \/ (Incomplete(u) /\ Incomplete(v)))
ScoreBound == pc = "done" /\ Informative => \A k \in DOMAIN terms : Leq(Scores[k], Q(1))

Emit == pc = "done" /\ Informative =>
  LET s == TLCEval(Scores) IN
  PrintT("@" \o ToJson([ncols |-> NCols, dim |-> dim, rows |-> rows, y |-> y, classify |-> Classify,
    terms |-> [k \in DOMAIN terms |-> [term |-> terms[k], numbers |-> num[k], score |-> s[k],
                                       better |-> Cardinality({j \in DOMAIN terms : Less(s[k], s[j])})]]]))
=============================================================================
