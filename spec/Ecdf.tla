-------------------------------- MODULE Ecdf --------------------------------
(* The empirical distribution function of a binned column, evaluated at any   *)
(* value.  The fitted column (Binning) is a staircase of boundaries and        *)
(* cumulative weights; a continuous column is interpolated linearly between    *)
(* its boundaries, a discrete one only knows the values it was fitted on.      *)
EXTENDS Binning
LOCAL RR == INSTANCE Rational

VARIABLE cdf
evars == <<conf, size, col, last, extra, fit, look, done, cdf>>

Unknown == <<>>       \* the code answers "not a number"

(* h is twice the value asked for.  The knots are the smallest training value  *)
(* at probability zero followed by the upper ends of the bins; where the first *)
(* bin consists of the smallest value alone, its own probability counts.       *)
CdfHalf(f, kind, magic, h) ==
    IF f.upper = <<>> \/ (magic /\ h \in {2 * m : m \in MagicVals}) THEN Unknown
    ELSE IF kind # "cont"
         THEN LET at == {j \in 1..Len(f.upper) : 2 * f.upper[j] = h}
              IN (IF at = {} THEN Unknown ELSE RR!Frac(f.cum[Min(at)], f.total))
         ELSE LET below == {j \in 1..Len(f.upper) : 2 * f.upper[j] <= h}
                  k     == (IF below = {} THEN 0 ELSE Max(below))
                  z0    == 2 * (IF k = 0 THEN f.low ELSE f.upper[k])
                  c0    == (IF k = 0 THEN 0 ELSE f.cum[k])
              IN IF h < 2 * f.low THEN RR!Q(0)
                 ELSE IF k = Len(f.upper) THEN RR!Q(1)
                 ELSE RR!Add(RR!Frac(c0, f.total),
                             RR!Frac((h - z0) * (f.cum[k + 1] - c0),
                                     (2 * f.upper[k + 1] - z0) * f.total))

EInit == Init /\ cdf = <<>>
ENext == /\ Next
         /\ cdf' = (IF done' THEN [i \in 1..Len(Probes) |-> CdfHalf(fit', Kind, Magic, Probes[i])] ELSE <<>>)

(* ------------------------------ invariants ------------------------------- *)
Known(i) == cdf[i] # Unknown
InUnit == done => \A i \in 1..Len(Probes) :
              Known(i) => RR!Leq(RR!Q(0), cdf[i]) /\ RR!Leq(cdf[i], RR!Q(1))
Monotone == done => \A i, j \in 1..Len(Probes) :
              (i < j /\ Known(i) /\ Known(j)) => RR!Leq(cdf[i], cdf[j])
Ends == (done /\ fit.upper # <<>>) =>
           /\ CdfHalf(fit, Kind, Magic, 2 * fit.upper[Len(fit.upper)]) = RR!Q(1)
           /\ (Kind = "cont" => CdfHalf(fit, Kind, Magic, 2 * fit.low - 1) = RR!Q(0))
(* a bin's upper end carries the share of the weight at or below it *)
Share == done => \A k \in 1..Len(fit.upper) :
            CdfHalf(fit, Kind, Magic, 2 * fit.upper[k]) =
              RR!Frac(SumSeq([r \in 1..Len(Column) |->
                        (IF IsNum(Column[r][1]) /\ Column[r][1] \in BinValues(Column, Magic)
                            /\ Column[r][1] <= fit.upper[k] THEN Column[r][2] ELSE 0)]), fit.total)
(* between two neighbouring bin ends lies the bin the lookup names *)
Consistent == (done /\ fit.upper # <<>>) => \A i \in 1..Len(Probes) :
     LET b == look[i] IN
     /\ (b = -1) <=> ~Known(i)
     /\ b >= 0 => /\ RR!Leq(cdf[i], RR!Frac(fit.cum[b + 1], fit.total))
                  /\ (b > 0 => RR!Leq(RR!Frac(fit.cum[b], fit.total), cdf[i]))

ECases == done => PrintT("@" \o ToJson([kind |-> Kind, magic |-> Magic, n |-> NB, tol |-> Tol,
                                      col |-> Column, upper |-> fit.upper, cum |-> fit.cum,
                                      low |-> fit.low, total |-> fit.total, amb |-> fit.amb,
                                      probes |-> Probes, look |-> look, cdf |-> cdf]))
=============================================================================
