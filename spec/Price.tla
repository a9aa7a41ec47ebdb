-------------------------------- MODULE Price -------------------------------
(* The price model.  Demand features add to the prediction on the log scale, *)
(* price features multiply the elasticity: the prediction of a row is        *)
(*    base + sum of demand + (ratio - 1) * prior * product of price factors  *)
(* Demand parameters are integers in eighths, price factors powers of two,   *)
(* ratios quarters, prior exponents integers, so everything is exact.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rational

CONSTANTS Demands, Prices,         \* numbers of demand and of price features
          Bins, Ratios, Priors, DemandSteps, PriceSteps, Top,
          MinRows, MaxRows, MaxPasses, Probes, Random

Missing == -1
Unseen == 9
Features == 1..(Demands + Prices)
IsPrice(f) == f > Demands
VARIABLES rows, passes, par, pass, turn, log, probes, moved, pc
vars == <<rows, passes, par, pass, turn, log, probes, moved, pc>>

Draw(S) == RandomElement(IF Len(rows) + Len(log) + Len(probes) >= 0 THEN S ELSE {})
AllRows == [bin : [Features -> Bins], ratio : Ratios, prior : Priors]
RandomRow(B) == [bin |-> [f \in Features |-> Draw(B)], ratio |-> Draw(Ratios), prior |-> Draw(Priors)]

Init ==
  /\ rows = <<>> /\ passes = 0 /\ pass = 1 /\ turn = 1 /\ log = <<>> /\ probes = <<>> /\ moved = <<>> /\ pc = "rows"
  /\ par = [f \in Features |-> [b \in Bins |-> 0]]
AddRow ==
  /\ pc = "rows" /\ Len(rows) < MaxRows
  /\ \E r \in (IF Random THEN {RandomRow(Bins)} ELSE AllRows) : rows' = Append(rows, r)
  /\ UNCHANGED <<passes, par, pass, turn, log, probes, moved, pc>>
Start ==
  /\ pc = "rows" /\ Len(rows) >= MinRows /\ (\E i \in DOMAIN rows : rows[i].ratio # Missing)
  /\ \E n \in (IF Random THEN {Draw(1..MaxPasses)} ELSE 1..MaxPasses) : passes' = n
  /\ pc' = "train" /\ UNCHANGED <<rows, par, pass, turn, log, probes, moved>>

-----------------------------------------------------------------------------
RECURSIVE SumSet(_, _)
SumSet(F(_), S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN F(x) + SumSet(F, S \ {x})
Par(P, f, b) == IF b \in DOMAIN P[f] THEN P[f][b] ELSE 0
RECURSIVE Power(_)
Power(k) == IF k = 0 THEN Q(1) ELSE IF k > 0 THEN Mul(Q(2), Power(k - 1)) ELSE Mul(Frac(1, 2), Power(k + 1))

DemandOf(P, r) == Frac(SumSet(LAMBDA f : Par(P, f, r.bin[f]), 1..Demands), 8)
Exponent(P, r) == SumSet(LAMBDA f : Par(P, f, r.bin[f]), (Demands + 1)..(Demands + Prices))
Elasticity(P, r) == Mul(Q(r.prior), Power(Exponent(P, r)))
Excess(r) == IF r.ratio = Missing THEN Q(0) ELSE Frac(r.ratio - 4, 4)
Link(P, r) == Add(DemandOf(P, r), Mul(Excess(r), Elasticity(P, r)))

Here(f) == {rows[i].bin[f] : i \in DOMAIN rows}
Steps(f, b) == IF b \notin Here(f) THEN {0}
               ELSE {s \in (IF IsPrice(f) THEN PriceSteps ELSE DemandSteps) : AbsI(par[f][b] + s) <= (IF IsPrice(f) THEN Top ELSE 8 * Top)}
Proposals(f) == IF Random THEN {[b \in Bins |-> Draw(Steps(f, b))]} ELSE {p \in [Bins -> PriceSteps \cup DemandSteps \cup {0}] : \A b \in Bins : p[b] \in Steps(f, b)}
Visit ==
  /\ pc = "train"
  /\ \E p \in Proposals(turn) :
       /\ par' = [par EXCEPT ![turn] = [b \in Bins |-> @[b] + p[b]]]
       /\ log' = Append(log, [pass |-> pass, feature |-> turn, offered |-> [i \in DOMAIN rows |-> Link(par, rows[i])],
                              given |-> {[bin |-> b, to |-> p[b]] : b \in Bins}])
  /\ IF turn < Demands + Prices THEN turn' = turn + 1 /\ UNCHANGED <<pass, pc>>
     ELSE /\ turn' = 1
          /\ IF pass < passes THEN pass' = pass + 1 /\ UNCHANGED pc ELSE pc' = "probe" /\ UNCHANGED pass
  /\ UNCHANGED <<rows, passes, probes, moved>>
Probe ==
  /\ pc = "probe" /\ Len(probes) < Probes
  /\ \E r \in (IF Random THEN {RandomRow(Bins \cup {Unseen})} ELSE {[rows[1] EXCEPT !.ratio = x] : x \in Ratios}) : probes' = Append(probes, r)
  /\ UNCHANGED <<rows, passes, par, pass, turn, log, moved, pc>>
(* the price bins of rows without a price may be changed at will *)
Known(i) == rows[i].ratio # Missing
Target(f) == {rows[i].bin[f] : i \in {j \in DOMAIN rows : Known(j)}}
Finish ==
  /\ pc = "probe" /\ Len(probes) = Probes /\ pc' = "done"
  /\ moved' = [i \in DOMAIN rows |->
                 IF Known(i) THEN rows[i].bin
                 ELSE [f \in Features |-> IF IsPrice(f) THEN (IF Random THEN Draw(Target(f)) ELSE CHOOSE b \in Target(f) : TRUE) ELSE rows[i].bin[f]]]
  /\ UNCHANGED <<rows, passes, par, pass, turn, log, probes>>
Next == AddRow \/ Start \/ Visit \/ Probe \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
AllProbes == {probes[i] : i \in DOMAIN probes} \cup {rows[i] : i \in DOMAIN rows}
At(r, x) == [r EXCEPT !.ratio = x]
(* at ratio one, and without a price, only demand counts *)
NoPriceEffect == pc = "done" => \A r \in AllProbes : Link(par, At(r, 4)) = DemandOf(par, r) /\ Link(par, At(r, Missing)) = DemandOf(par, r)
(* the effect of a price is proportional to its excess over one *)
Proportional == pc = "done" => \A r \in AllProbes : \A x \in Ratios \ {Missing} :
                  Mul(Q(4), Sub(Link(par, At(r, x)), Link(par, At(r, 4)))) = Mul(Q(x - 4), Elasticity(par, r))
KeepsSign == pc = "done" => \A r \in AllProbes : (r.prior < 0 <=> Less(Elasticity(par, r), Q(0)))
Bounded == \A f \in Features : \A b \in Bins : AbsI(par[f][b]) <= (IF IsPrice(f) THEN Top ELSE 8 * Top)

Emit == pc = "done" => PrintT("@" \o ToJson(
          [rows |-> rows, passes |-> passes, demands |-> Demands, log |-> log, moved |-> moved,
           probes |-> [i \in DOMAIN probes |-> [row |-> probes[i], link |-> Link(par, probes[i]),
                                                 demand |-> DemandOf(par, probes[i]), elasticity |-> Elasticity(par, probes[i]),
                                                 own |-> [f \in Features |-> Par(par, f, probes[i].bin[f])]]],
           final |-> [i \in DOMAIN rows |-> Link(par, rows[i])]]))
=============================================================================
