----------------------------- MODULE BinningOps -----------------------------
(* Equal-frequency and per-value binning of one weighted column, in exact    *)
(* integer arithmetic.  A column is a sequence of rows <<v, w>> where v is an *)
(* integer value or one of the codes for missing, +infinity, -infinity, and   *)
(* w is a non-negative integer weight.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL SX == INSTANCE SequencesExt

NaN == 1000001
PInf == 1000002
NInf == 1000003
Special == {NaN, PInf, NInf}
MagicVals == {-9, -999}

IsNum(v) == v \notin Special

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y

(* the values that take part in binning: numbers of positive total weight,   *)
(* without the magic codes if the column declares them to mean missing       *)
WeightOf(col, v) == SumSeq([i \in 1..Len(col) |-> IF col[i][1] = v THEN col[i][2] ELSE 0])
NumericValues(col) == {col[i][1] : i \in {j \in 1..Len(col) : col[j][1] \notin Special}}
BinValues(col, magic) ==
    {v \in NumericValues(col) : WeightOf(col, v) > 0 /\ ~(magic /\ v \in MagicVals)}

Ascending(S) == SortSeq(SX!SetToSeq(S), <)

RECURSIVE Cumulate(_, _)
Cumulate(ws, acc) == IF ws = <<>> THEN <<>> ELSE <<acc + Head(ws)>> \o Cumulate(Tail(ws), acc + Head(ws))

(* ------------------------------------------------------------------------ *)
(* Greedy reduction of the empirical cdf to at most n bins.  cum: cumulative *)
(* weights of the ascending values; tol = <<num, den>>.  The result is the   *)
(* increasing sequence of positions in cum that close a bin.                 *)
(* All comparisons are scaled by W * n * den, so everything is an integer.   *)
RECURSIVE Greedy(_, _, _, _)
Greedy(cum, n, tol, acc) ==
    LET W  == cum[Len(cum)]
        P  == IF acc = <<>> THEN 0 ELSE cum[acc[Len(acc)]]
        r  == (P * n) % W                                 \* W * n * (cdf mod share)
        s  == P * n + W - (IF r * tol[2] <= tol[1] * W THEN r ELSE 0)
    IN IF Len(acc) >= n THEN acc
       ELSE IF s * tol[2] <= W * n * tol[2] + tol[1] * W
            THEN LET cand == {j \in 1..Len(cum) : cum[j] * n >= s}
                     j    == IF cand = {} THEN Len(cum) ELSE Min(cand)
                 IN Greedy(cum, n, tol, Append(acc, j))
            ELSE [acc EXCEPT ![Len(acc)] = Len(cum)]

(* a decision that hits equality cannot be predicted for binary floating     *)
(* point; such columns are not compared exactly                              *)
RECURSIVE Ambiguous(_, _, _, _)
Ambiguous(cum, n, tol, acc) ==
    LET W  == cum[Len(cum)]
        P  == IF acc = <<>> THEN 0 ELSE cum[acc[Len(acc)]]
        r  == (P * n) % W
        s  == P * n + W - (IF r * tol[2] <= tol[1] * W THEN r ELSE 0)
        cand == {j \in 1..Len(cum) : cum[j] * n >= s}
        j    == IF cand = {} THEN Len(cum) ELSE Min(cand)
    IN IF Len(acc) >= n \/ P = W THEN FALSE
       ELSE \/ (r > 0 /\ r * tol[2] = tol[1] * W)
            \/ s * tol[2] = W * n * tol[2] + tol[1] * W
            \/ (s * tol[2] <= W * n * tol[2] + tol[1] * W /\ Ambiguous(cum, n, tol, Append(acc, j)))

(* Fitted column: upper boundary value and cumulative weight of each bin.    *)
(* "none" stands for a column without any usable training value.             *)
FitColumn(col, kind, magic, n, tol) ==
    LET vals == Ascending(BinValues(col, magic))
        cum  == Cumulate([i \in 1..Len(vals) |-> WeightOf(col, vals[i])], 0)
        idx  == IF kind = "cont" THEN Greedy(cum, n, tol, <<>>) ELSE [i \in 1..Len(vals) |-> i]
    IN IF vals = <<>> THEN [upper |-> <<>>, cum |-> <<>>, low |-> 0, total |-> 0, amb |-> FALSE]
       ELSE [upper |-> [i \in 1..Len(idx) |-> vals[idx[i]]],
             cum   |-> [i \in 1..Len(idx) |-> cum[idx[i]]],
             low   |-> vals[1],
             total |-> cum[Len(cum)],
             amb   |-> (kind = "cont") /\ Ambiguous(cum, n, tol, <<>>)]

(* Bin number of a looked-up value; h is twice the value, so that odd h are  *)
(* values strictly between two integers.                                     *)
LookupHalf(fit, kind, magic, h) ==
    IF fit.upper = <<>> THEN -1
    ELSE IF magic /\ h \in {2 * m : m \in MagicVals} THEN -1
    ELSE IF kind = "cont"
         THEN LET cand == {j \in 1..Len(fit.upper) : 2 * fit.upper[j] >= h}
              IN IF cand = {} THEN Len(fit.upper) - 1 ELSE Min(cand) - 1
         ELSE LET cand == {j \in 1..Len(fit.upper) : 2 * fit.upper[j] = h}
              IN IF cand = {} THEN -1 ELSE Min(cand) - 1

Lookup(fit, kind, magic, v) == IF v \in Special THEN -1 ELSE LookupHalf(fit, kind, magic, 2 * v)

(* ----------------------------- guarantees ------------------------------- *)
CountOk(fit, kind, n) == kind = "cont" => Len(fit.upper) <= n
StrictlyIncreasing(fit) == \A i \in 1..(Len(fit.upper) - 1) : fit.upper[i] < fit.upper[i + 1]
Covers(fit, col, magic) ==
    LET vs == BinValues(col, magic)
    IN /\ \A i \in 1..Len(fit.upper) : fit.upper[i] \in vs
       /\ vs = {} <=> fit.upper = <<>>
       /\ vs # {} => fit.upper[Len(fit.upper)] = Max(vs)
BinWeight(fit, i) == fit.cum[i] - (IF i = 1 THEN 0 ELSE fit.cum[i - 1])
(* weight of bin i >= (1 - tol) / n * total *)
EnoughWeight(fit, kind, n, tol) ==
    kind = "cont" => \A i \in 1..Len(fit.upper) :
                        BinWeight(fit, i) * n * tol[2] >= (tol[2] - tol[1]) * fit.total
OneBinPerValue(fit, col, kind, magic) ==
    kind # "cont" => Len(fit.upper) = Cardinality(BinValues(col, magic))
=============================================================================
