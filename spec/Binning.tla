------------------------------ MODULE Binning -------------------------------
(* All small weighted columns: build a column row by row, fit it, look up     *)
(* every probe value.                                                         *)
EXTENDS BinningOps, TLC, Json

CONSTANTS Vals,        \* ascending sequence of training values used while building
          Weights,     \* set of row weights
          Sizes,       \* set of numbers of rows
          Ordered,     \* TRUE: build rows in value order only (exhaustive runs)
          Confs,       \* set of <<kind, magic, n, tol>>
          Extras       \* set of special rows to mix in: sequences of <<v, w>>

VARIABLES conf, size, col, last, extra, fit, look, done

vars == <<conf, size, col, last, extra, fit, look, done>>

Column == col \o extra
Kind == conf[1]
Magic == conf[2]
NB == conf[3]
Tol == conf[4]

MaxV == Max({Vals[i] : i \in 1..Len(Vals)})
MinV == Min({Vals[i] : i \in 1..Len(Vals)} \ MagicVals)
Probes == Ascending((2 * MinV - 3)..(2 * MaxV + 3) \cup {-18, -1998, -17, -19, -1997, -1999, -2000, -2400})

Init == /\ conf \in Confs
        /\ extra \in Extras
        /\ size \in Sizes
        /\ col = <<>> /\ last = 1 /\ done = FALSE
        /\ fit = <<>> /\ look = <<>>

(* rows are added in non-decreasing value order: the fit only depends on the  *)
(* weight per value, and the replay shuffles and splits the rows              *)
(* simulation runs draw one row at a time instead of listing all of them      *)
Pick(S) == IF Ordered THEN S ELSE {RandomElement(S)}
AddRow == /\ ~done /\ Len(col) < size
          /\ \E i \in Pick((IF Ordered THEN last ELSE 1)..Len(Vals)), w \in Pick(Weights) :
                /\ (Ordered /\ i = last /\ col # <<>>) => w >= col[Len(col)][2]
                /\ col' = Append(col, <<Vals[i], w>>)
                /\ last' = i
          /\ UNCHANGED <<conf, size, extra, fit, look, done>>

Finish == /\ ~done /\ Len(col) = size
          /\ done' = TRUE
          /\ fit' = FitColumn(Column, Kind, Magic, NB, Tol)
          /\ look' = [i \in 1..Len(Probes) |-> LookupHalf(fit', Kind, Magic, Probes[i])]
          /\ UNCHANGED <<conf, size, col, last, extra>>

Next == AddRow \/ Finish

(* ------------------------------ invariants ------------------------------- *)
Guarantees ==
    done => /\ CountOk(fit, Kind, NB)
            /\ StrictlyIncreasing(fit)
            /\ Covers(fit, Column, Magic)
            /\ EnoughWeight(fit, Kind, NB, Tol)
            /\ OneBinPerValue(fit, Column, Kind, Magic)

(* total, in range, monotone for continuous columns apart from magic codes   *)
LookupOk ==
    done => /\ \A i \in 1..Len(Probes) : look[i] \in -1..(Len(fit.upper) - 1)
            /\ Kind = "cont" /\ fit.upper # <<>> =>
                 \A i, j \in 1..Len(Probes) :
                    (i < j /\ look[i] # -1 /\ look[j] # -1) => look[i] <= look[j]
            /\ Kind = "cont" /\ fit.upper # <<>> =>
                 \A i \in 1..Len(Probes) : look[i] = -1 => Magic /\ Probes[i] \in {-18, -1998}
            \* a training value belongs to the bin it was counted in
            /\ \A k \in 1..Len(Column) :
                 LET v == Column[k][1] IN
                 IsNum(v) => IF v \in BinValues(Column, Magic)
                             THEN Lookup(fit, Kind, Magic, v) >= 0
                             ELSE (Kind # "cont") => Lookup(fit, Kind, Magic, v) = -1

Emit == done => PrintT("@" \o ToJson([kind |-> Kind, magic |-> Magic, n |-> NB, tol |-> Tol,
                                      col |-> Column, upper |-> fit.upper, cum |-> fit.cum,
                                      low |-> fit.low, total |-> fit.total, amb |-> fit.amb,
                                      probes |-> Probes, look |-> look]))
=============================================================================
