-------------------------------- MODULE Plots --------------------------------
(* What a factor plot shows.  A feature has finite bins and, last, the bin of  *)
(* missing values.  Values are counted in units of the link scale; what is     *)
(* drawn is on the scale of the target.  One-dimensional features are drawn    *)
(* bin by bin, two-dimensional ones as images with their margins.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rational

CONSTANTS Dims,        \* set of sequences of numbers of finite bins
          Units,       \* values
          Weights      \* weights of bins

VARIABLES dims, link, cont, missing, stats, bins, at, lines, marker
vars == <<dims, link, cont, missing, stats, bins, at, lines, marker>>

RECURSIVE Prod(_, _)
Prod(s, k) == IF k = 0 THEN 1 ELSE s[k] * Prod(s, k - 1)
NF == Prod(dims, Len(dims))
Last == NF + 1
RECURSIVE Pow(_)
Pow(k) == IF k = 0 THEN 1 ELSE 2 * Pow(k - 1)
Two(k) == IF k >= 0 THEN Frac(Pow(k), 1) ELSE Frac(1, Pow(-k))
(* units: log and logit count in log 2, identity in halves *)
Drawn(k) == CASE link = "log" -> Two(k)
              [] link = "logit" -> Div(Two(k), Add(Q(1), Two(k)))
              [] OTHER -> Frac(k, 2)

Series == {"smoothed", "raw", "truth", "prediction"}
Init == /\ dims \in Dims /\ link \in {"log", "logit", "identity"} /\ cont \in BOOLEAN /\ missing \in BOOLEAN /\ stats \in BOOLEAN
        /\ bins = <<>> /\ at = 0 /\ lines = [s \in Series |-> <<>>] /\ marker = <<>>
Fill == /\ Len(bins) < Last /\ at = 0
        /\ \E s, r, d, t, p \in Units, w \in Weights :
              bins' = Append(bins, [smoothed |-> s, raw |-> r, dev |-> d, truth |-> t, prediction |-> p, w |-> w])
        /\ UNCHANGED <<dims, link, cont, missing, stats, at, lines, marker>>
(* the bin of missing values takes part if the feature may have missing values; *)
(* truth and prediction of it are not drawn; raw parameters are drawn if there  *)
(* are no truth and prediction                                                  *)
Point(s) == <<at, Drawn(bins[at + 1][s])>>
Shows(s) == CASE s = "smoothed" -> at < NF \/ missing
              [] s = "raw" -> ~stats /\ (at < NF \/ missing)
              [] OTHER -> stats /\ at < NF
Draw == /\ Len(bins) = Last /\ at < Last
        /\ lines' = [s \in Series |-> IF Shows(s) THEN Append(lines[s], Point(s)) ELSE lines[s]]
        /\ marker' = (IF at = NF /\ missing THEN Point("smoothed") ELSE marker)
        /\ at' = at + 1
        /\ UNCHANGED <<dims, link, cont, missing, stats, bins>>
Next == Fill \/ Draw
Spec == Init /\ [][Next]_vars

(* margins of a table of two dimensions: weighted mean of the factors along one *)
(* dimension; bins without weight count once                                    *)
Cell(i, j) == (i - 1) * dims[2] + j
W(c) == IF bins[c].w = 0 THEN 1 ELSE bins[c].w
RECURSIVE WSum(_, _), FSum(_, _, _)
WSum(cells, k) == IF k = 0 THEN 0 ELSE W(cells[k]) + WSum(cells, k - 1)
FSum(cells, s, k) == IF k = 0 THEN Q(0) ELSE Add(Mul(Q(W(cells[k])), Two(bins[cells[k]][s])), FSum(cells, s, k - 1))
Mean(cells, s) == Div(FSum(cells, s, Len(cells)), Q(WSum(cells, Len(cells))))
Margin(axis, s) == IF axis = 1 THEN [i \in 1..dims[1] |-> Mean([j \in 1..dims[2] |-> Cell(i, j)], s)]
                   ELSE [j \in 1..dims[2] |-> Mean([i \in 1..dims[1] |-> Cell(i, j)], s)]

(* ------------------------------ invariants ------------------------------- *)
Done == at = Last
EveryBinOnce == Done => /\ Len(lines["smoothed"]) = NF + (IF missing THEN 1 ELSE 0)
                        /\ \A s \in Series : \A k \in DOMAIN lines[s] : lines[s][k][1] = k - 1
TruthOrRaw == Done => ((lines["raw"] = <<>>) <=> stats) /\ Len(lines["truth"]) = Len(lines["prediction"])
MissingMarked == Done => (marker # <<>> <=> missing)
InRange == link = "logit" => \A s \in Series : \A k \in DOMAIN lines[s] : Less(Q(0), lines[s][k][2]) /\ Less(lines[s][k][2], Q(1))
Emit == Done => PrintT("@" \o ToJson([dims |-> dims, link |-> link, cont |-> cont, missing |-> missing, stats |-> stats, bins |-> bins,
    lines |-> lines, marker |-> marker,
    margins |-> IF Len(dims) = 2 THEN [s \in {"smoothed", "dev", "truth", "prediction"} |-> <<Margin(1, s), Margin(2, s)>>] ELSE <<>>]))
=============================================================================
