----------------------------- MODULE BinnerApi ------------------------------
(* Histories of calls on one binning transformer over a few small tables.    *)
(* A table is a sequence of columns of equal length (values as in            *)
(* BinningOps); column Weight, if any, holds the row weights.                *)
EXTENDS BinningOps, TLC, Json

CONSTANTS Tables,      \* sequence of tables
          Configs,     \* set of [kinds, magic, n, tol, weight, inplace]
                       \*   kinds[c] in {"cont", "ord", "unord", "off"}; weight: column or 0
                       \*   n[c]: number of bins wanted for column c
          Modes,       \* ways of presenting the rows to transform
          MaxCalls

VARIABLES cfg, fitted, hist

NC == Len(cfg.kinds)
Rows(t) == Len(Tables[t][1])
WeightAt(t, r) == IF cfg.weight = 0 THEN 1 ELSE Tables[t][cfg.weight][r]
Configured(c) == cfg.kinds[c] # "off" /\ c # cfg.weight

ColumnOf(t, c) == [r \in 1..Rows(t) |-> <<Tables[t][c][r], WeightAt(t, r)>>]
FitOf(t, c) == FitColumn(ColumnOf(t, c), cfg.kinds[c], cfg.magic, cfg.n[c], cfg.tol)

(* what a transform of table t must return after a fit on table f *)
Output(f, t) ==
    [c \in 1..NC |->
        IF Configured(c)
        THEN LET fit == FitOf(f, c)
             IN [r \in 1..Rows(t) |-> Lookup(fit, cfg.kinds[c], cfg.magic, Tables[t][c][r])]
        ELSE Tables[t][c]]

Amb(f) == \E c \in 1..NC : Configured(c) /\ FitOf(f, c).amb

Init == cfg \in Configs /\ fitted = 0 /\ hist = <<>>

Call(e) == hist' = Append(hist, e)

Fit(t) == /\ fitted' = t
          /\ Call([op |-> "fit", table |-> t, ok |-> TRUE])
(* `by` is the table of the fit that is in force *)
FitTransform(t) ==
          /\ fitted' = t
          /\ Call([op |-> "fit_transform", table |-> t, ok |-> TRUE, by |-> t])
Transform(t, m) ==
          /\ UNCHANGED fitted
          /\ Call(IF fitted = 0
                  THEN [op |-> "transform", table |-> t, mode |-> m, ok |-> FALSE]
                  ELSE [op |-> "transform", table |-> t, mode |-> m, ok |-> TRUE, by |-> fitted])
DropColumn(t) ==      \* a fitted column is missing from the table
          /\ fitted # 0
          /\ UNCHANGED fitted
          /\ \E c \in 1..NC : Configured(c) /\ Call([op |-> "transform_drop", table |-> t, col |-> c, ok |-> FALSE])
FitEmpty ==           \* afterwards the object is not used any more
          /\ Len(hist) = MaxCalls - 1
          /\ UNCHANGED fitted
          /\ Call([op |-> "fit_empty", ok |-> FALSE])
TransformEmpty ==
          /\ fitted # 0
          /\ UNCHANGED fitted
          /\ Call([op |-> "transform_empty", ok |-> TRUE])

Next == /\ Len(hist) < MaxCalls
        /\ \/ \E t \in 1..Len(Tables) : Fit(t) \/ FitTransform(t) \/ DropColumn(t)
           \/ \E t \in 1..Len(Tables), m \in Modes : Transform(t, m)
           \/ FitEmpty \/ TransformEmpty
        /\ UNCHANGED cfg

(* -------- what the calls must satisfy independently of the operators ------ *)
Produces(e) == e.ok /\ e.op \in {"transform", "fit_transform"}
Out(e) == Output(e.by, e.table)
RowWise ==     \* equal cells of a column get equal bin numbers under one fit
    Len(hist) = MaxCalls =>
    \A i, j \in 1..Len(hist) :
        (/\ hist[i].ok /\ hist[j].ok /\ hist[i].op = "transform" /\ hist[j].op = "transform"
         /\ i < j /\ ~\E k \in i..j : hist[k].op \in {"fit", "fit_transform"})
        => \A c \in 1..NC, r \in 1..Rows(hist[i].table), s \in 1..Rows(hist[j].table) :
              Tables[hist[i].table][c][r] = Tables[hist[j].table][c][s]
                 => Out(hist[i])[c][r] = Out(hist[j])[c][s]
Untouched ==
    Len(hist) = MaxCalls =>
    \A i \in 1..Len(hist) :
        Produces(hist[i])
        => \A c \in 1..NC : ~Configured(c) => Out(hist[i])[c] = Tables[hist[i].table][c]

Emit == Len(hist) = MaxCalls
        => PrintT("@" \o ToJson([cfg |-> cfg,
                                 hist |-> [i \in 1..Len(hist) |->
                                    IF Produces(hist[i]) THEN [ev |-> hist[i], out |-> Out(hist[i])]
                                    ELSE [ev |-> hist[i]]],
                                 amb |-> \E t \in 1..Len(Tables) : Amb(t)]))
=============================================================================
