------------------------------- MODULE Johnson ------------------------------
(* Quantile-parameterised distributions of Johnson's kind in exact fractions.  *)
(* With lengths measured in powers of two, hyperbolic functions of multiples   *)
(* of ln 2 are fractions: Sh(n) = sinh(n ln 2), Ch(n) = cosh(n ln 2).          *)
EXTENDS Integers, Sequences, TLC, Json, Rational

CONSTANTS Lows, Widths,   \* lower value and width of the triplet, internal scale
          Tails,          \* set of a: the median divides the width as 1 : 2 Ch(a) - 1
          Units,          \* base levels -J..J in units of the upper given level
          Shapes          \* set of m: shapes of the base distribution are 4m and -4m

RECURSIVE Two(_)
Two(n) == IF n = 0 THEN 1 ELSE 2 * Two(n - 1)
Pow(n) == IF n >= 0 THEN Q(Two(n)) ELSE Frac(1, Two(-n))
Sh(n) == Mul(Sub(Pow(n), Pow(-n)), Frac(1, 2))
Ch(n) == Mul(Add(Pow(n), Pow(-n)), Frac(1, 2))

VARIABLES low, width, a, side, path, m, k, base
vars == <<low, width, a, side, path, m, k, base>>

(* side: where the longer tail lies *)
Init == /\ low \in Lows /\ width \in Widths /\ a \in Tails
        /\ side \in {"right", "left", "none"}
        /\ path = <<>>
        /\ m \in Shapes /\ k = 0 /\ base = <<>>

High == Q(low + width)
Median == CASE side = "right" -> Add(Q(low), Div(Q(width), Mul(Q(2), Ch(a))))
            [] side = "left" -> Sub(High, Div(Q(width), Mul(Q(2), Ch(a))))
            [] side = "none" -> Add(Q(low), Frac(width, 2))

(* the value at base level j: 1 is the given upper level, -1 the lower one *)
Kappa == Div(Q(width), Sh(2 * a))
Value(j) == CASE side = "right" -> Add(Q(low), Mul(Kappa, Sh((j + 1) * a)))
              [] side = "left" -> Sub(High, Mul(Kappa, Sh((1 - j) * a)))
              [] side = "none" -> Add(Median, Mul(Frac(width, 2), Q(j)))

(* walk up the levels; at the same time up the odds of the base distribution   *)
(* of shape -4m: at odds 2^k the logistic value is k ln 2 / 4, the modified    *)
(* one Sh(m k) / (4 m), its density 4 p (1 - p) / Ch(m k)                      *)
BaseAt(i) == LET p == Div(Pow(i), Add(Pow(i), Q(1)))
             IN [odds |-> i, p |-> p,
                 x |-> (IF m = 0 THEN Q(0) ELSE Div(Sh(m * i), Q(4 * m))),
                 density |-> Div(Mul(Q(4), Mul(p, Sub(Q(1), p))), Ch(m * i)),
                 stretch |-> Ch(i), arg |-> (IF m = 0 THEN Q(0) ELSE Div(Sh(i), Q(4 * m)))]
Step == /\ Len(path) < 2 * Units + 1
        /\ LET j == Len(path) - Units
           IN /\ path' = Append(path, <<j, Value(j)>>)
              /\ k' = j
              /\ base' = Append(base, BaseAt(j))
        /\ UNCHANGED <<low, width, a, side, m>>
Next == Step

(* ------------------------------ invariants ------------------------------- *)
Through == /\ Value(-1) = Q(low) /\ Value(0) = Median /\ Value(1) = High
Rising == \A i \in 1..(Len(path) - 1) : Less(path[i][2], path[i + 1][2])
(* distances from the median are longer on the side of the tail *)
LongerSide == \A j \in 1..Units :
          LET up == Sub(Value(j), Median)
              down == Sub(Median, Value(-j))
          IN CASE side = "right" -> Less(down, up)
               [] side = "left" -> Less(up, down)
               [] side = "none" -> up = down
(* the mirrored triplet has the mirrored distribution *)
Mirror == \A j \in -Units..Units :
            LET r == Mul(Kappa, Sh((j + 1) * a))
                l == Sub(Q(width), Mul(Kappa, Sh((1 + j) * a)))
            IN Add(r, l) = Q(width)
BaseOdd == \A i \in 1..Len(base) : BaseAt(-base[i].odds).x = Neg(base[i].x)
BaseRising == m > 0 => \A i \in 1..(Len(base) - 1) : Less(base[i].x, base[i + 1].x)
BaseEven == \A i \in 1..Len(base) : BaseAt(-base[i].odds).density = base[i].density

Emit == Len(path) = 2 * Units + 1 => PrintT("@" \o ToJson([low |-> low, width |-> width, median |-> Median, side |-> side,
                                            path |-> path, sh |-> Sh(a), ch |-> Ch(a), m |-> m, base |-> base]))
=============================================================================
