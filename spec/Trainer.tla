------------------------------ MODULE Trainer ------------------------------
(* The training loop of the boosting estimators: passes over the feature     *)
(* groups, the running prediction, accumulated parameters, clipping, stop    *)
(* criteria, divergence handling, hierarchical schedule, observers.          *)
(*                                                                           *)
(* The estimation of bin parameters itself is an input here: in each step    *)
(* the model proposes one value per bin (Props), the rest of the machinery   *)
(* is determined.  All values are integers on the link scale, relative to    *)
(* the plain base level (global scale): units of 1/16 for the identity link  *)
(* and of 1e-5 for the log link.  Decisions that lie within the rounding of  *)
(* these units end a behaviour with the verdict "unsure".                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Configs,   \* set of configurations (see the fields used below)
          Random,    \* TRUE: one random proposal per estimation (simulation)
          LnTab      \* LnTab[n] = ln(n) in 1e-5

NaN == 1000001
PInf == 1000002
NInf == 1000003

LnHalf == -69315
LnTwo == 69315
LnDampLo == -22314
LnDampHi == 18232
LnLo(ext, dim) == IF ext THEN (IF dim = 1 THEN -299573 ELSE -230259) ELSE (IF dim = 1 THEN -460517 ELSE -230259)
LnHi(ext, dim) == IF ext THEN (IF dim = 1 THEN 299573 ELSE 160944) ELSE (IF dim = 1 THEN 690776 ELSE 460517)

VARIABLES
  cfg,     \* the configuration
  geo,     \* derived from it: bins of the groups, bin of each row, base levels
  pc,      \* "loop" (before a pass), "feat" (inside), "done"
  it,      \* completed passes
  fi,      \* next feature of the pass
  upd,     \* upd[f][b]: last applied update
  old,     \* the update before that
  agg,     \* agg[f][b]: learned parameter
  fitted,  \* fitted[f]: estimated at least once
  ignored, \* ignored[f]: reset because of divergence, its proper bins are no longer learned
  pred,    \* running prediction per row
  shown,   \* prediction after the last complete pass
  loss, loss0,
  change,  \* <<numerator, denominator>> of the relative loss change
  dev,     \* 16 * number of features * mean absolute change of the updates
  isdiv, ndiv,
  stop,    \* which criteria held when last evaluated
  hist,    \* observable events
  verdict
vars == <<cfg, geo, pc, it, fi, upd, old, agg, fitted, ignored, pred, shown, loss, loss0, change, dev, isdiv, ndiv, stop, hist, verdict>>

-----------------------------------------------------------------------------
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Clip(x, lo, hi) == Min2(Max2(x, lo), hi)
RECURSIVE SumTo(_, _)
SumTo(F(_), n) == IF n = 0 THEN 0 ELSE F(n) + SumTo(F, n - 1)
RECURSIVE ProdTo(_, _)
ProdTo(F(_), n) == IF n = 0 THEN 1 ELSE F(n) * ProdTo(F, n - 1)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Scale(x, q) == (2 * x * q[1] + q[2]) \div (2 * q[2])
Pow2(n) == n \in {1, 2, 4, 8, 16}

-----------------------------------------------------------------------------
(* Geometry of a configuration                                               *)
Dim(c, f) == Len(c.feats[f].cols)
Tup(c, r, f) == [k \in 1..Dim(c, f) |-> c.rows[r][c.feats[f].cols[k]]]
Missing(t) == \E k \in DOMAIN t : t[k] < 0

\* bins per column of a group: taken from the rows without any missing value
NBins(c, f) ==
  LET ok == {r \in 1..Len(c.rows) : ~Missing(Tup(c, r, f))}
  IN  [k \in 1..Dim(c, f) |-> IF ok = {} THEN 0 ELSE 1 + MaxOf({Tup(c, r, f)[k] : r \in ok})]

RECURSIVE LexFrom(_, _, _, _)
LexFrom(t, n, k, acc) == IF k > Len(t) THEN acc ELSE LexFrom(t, n, k + 1, acc * n[k] + t[k])
Prod(n) == LET F(k) == n[k] IN ProdTo(F, Len(n))

\* parameter addressed by a tuple: 1..Prod(n) proper bins, Prod(n)+1 missing, 0 none
Address(t, n) ==
  IF Missing(t) THEN Prod(n) + 1
  ELSE IF \E k \in DOMAIN t : t[k] >= n[k] THEN 0
  ELSE 1 + LexFrom(t, n, 1, 0)

-----------------------------------------------------------------------------
(* Base level relative to the global scale                                   *)
Finite(p) == p \notin {NaN, PInf, NInf}
Representable(c, p) == Finite(p) /\ (c.link = "log" => p > 0)
LinkOf(c, p) == IF c.link = "log" THEN LnTab[p] ELSE 16 * p
PriorNum(c) == LET F(r) == IF Finite(c.prior[r]) THEN c.w[r] * c.prior[r] ELSE 0 IN SumTo(F, Len(c.prior))
PriorDen(c) == LET F(r) == IF Finite(c.prior[r]) THEN c.w[r] ELSE 0 IN SumTo(F, Len(c.prior))
MeanRepresentable(c) == PriorDen(c) > 0 /\ (c.link = "log" => PriorNum(c) > 0)
LinkMean(c) == IF c.link = "log" THEN LnTab[PriorNum(c)] - LnTab[PriorDen(c)] ELSE (16 * PriorNum(c)) \div PriorDen(c)
BaseOf(c, p) ==
  IF ~Representable(c, p) THEN 0
  ELSE IF MeanRepresentable(c) THEN LinkOf(c, p) - LinkMean(c)
  ELSE LinkOf(c, p)
Base(c, r) == IF c.prior = <<>> THEN 0 ELSE BaseOf(c, c.prior[r])

Geometry(c) ==
  [nb   |-> [f \in 1..Len(c.feats) |-> NBins(c, f)],
   bin  |-> [f \in 1..Len(c.feats) |-> [r \in 1..Len(c.rows) |-> Address(Tup(c, r, f), NBins(c, f))]],
   n    |-> [f \in 1..Len(c.feats) |-> Prod(NBins(c, f)) + 1],
   base |-> [r \in 1..Len(c.rows) |-> Base(c, r)]]

NF == Len(cfg.feats)
NR == Len(cfg.rows)
Bins(f) == 1..geo.n[f]
MissBin(f) == geo.n[f]
Hier == \E f \in 1..NF : cfg.feats[f].hier
BinWeight(f, b) == LET F(r) == IF geo.bin[f][r] = b THEN cfg.w[r] ELSE 0 IN SumTo(F, NR)

\* contribution of group f to a row with values t in its columns
Contribution(f, t) == LET a == Address(t, geo.nb[f]) IN IF a = 0 THEN 0 ELSE agg[f][a]

-----------------------------------------------------------------------------
LossOf(p) ==
  IF cfg.loss = "const" THEN 100
  ELSE LET F(r) == cfg.w[r] * Abs(p[r] - cfg.tgt[r]) IN SumTo(F, NR)
WSum == LET F(r) == cfg.w[r] IN SumTo(F, NR)
\* largest rounding error of a loss value (log link only)
Fuzz ==
  CASE cfg.loss = "observed" -> 3
    [] cfg.loss = "const" -> 0
    [] OTHER -> IF cfg.link = "log" THEN 60 * WSum ELSE 0

Diverged(l) == l > 2 * loss0
DivergedUnsure(l) == Fuzz > 0 /\ Abs(l - 2 * loss0) <= 3 * Fuzz

Rate(i, f) ==
  CASE Hier -> <<1, 1>>
    [] cfg.rate.kind = "one" -> <<1, 1>>
    [] cfg.rate.kind = "linear" -> <<i, cfg.max>>
    [] cfg.rate.kind = "half" -> IF 2 * i >= cfg.max THEN <<1, 1>> ELSE <<2 * i, cfg.max>>
    [] cfg.rate.kind = "script" -> <<cfg.rate.tab[((i + 2 * f) % Len(cfg.rate.tab)) + 1], 4>>

Dev(u, o) ==
  LET F(f) == LET G(b) == Abs(u[f][b] - o[f][b]) IN (16 * SumTo(G, geo.n[f])) \div geo.n[f]
  IN  SumTo(F, NF)

DevUnsure(d) ==
  LET gap == Abs(d - 16 * NF * cfg.minF)
  IN  IF cfg.minF < 0 THEN FALSE
      ELSE IF cfg.link = "log" \/ cfg.loss = "observed" THEN gap <= 16 * NF * 60
      ELSE (\E f \in 1..NF : ~Pow2(geo.n[f])) /\ gap <= NF

ChangeUnsure ==
  /\ cfg.minL[1] >= 0
  /\ Fuzz > 0
  /\ Abs(Abs(change[1]) * cfg.minL[2] - cfg.minL[1] * change[2]) <= (2 * cfg.minL[2] + cfg.minL[1]) * Fuzz

StopIter == it >= cfg.max
StopDev == it > 0 /\ dev <= 16 * NF * cfg.minF
StopLoss == it > 0 /\ Abs(change[1]) * cfg.minL[2] <= cfg.minL[1] * change[2]
Veto == Hier /\ it <= cfg.K
Continue == ~((StopIter \/ StopDev \/ StopLoss) /\ ~Veto) \/ isdiv
Unsure == it > 0 /\ (DevUnsure(dev) \/ ChangeUnsure)

-----------------------------------------------------------------------------
Init ==
  /\ cfg \in Configs
  /\ geo = Geometry(cfg)
  /\ pc = "loop" /\ it = 0 /\ fi = 0
  /\ upd = [f \in 1..Len(cfg.feats) |-> [b \in 1..geo.n[f] |-> 0]]
  /\ old = upd /\ agg = upd
  /\ fitted = [f \in 1..Len(cfg.feats) |-> FALSE]
  /\ ignored = fitted
  /\ pred = geo.base /\ shown = geo.base
  /\ loss = LossOf(geo.base) /\ loss0 = loss
  /\ change = <<0, 0>> /\ dev = 0
  /\ isdiv = FALSE /\ ndiv = 0
  /\ stop = <<FALSE, FALSE, FALSE>>
  /\ hist = <<>>
  /\ verdict = "none"

\* head of the loop: evaluate the criteria, tell the observers
Begin ==
  /\ pc = "loop"
  /\ stop' = <<StopIter, StopDev, StopLoss>>
  /\ IF Unsure
     THEN pc' = "done" /\ verdict' = "unsure" /\ UNCHANGED <<fi, hist>>
     ELSE IF Continue
     THEN /\ pc' = "feat" /\ fi' = 1
          /\ hist' = Append(hist, [ev |-> "pass", it |-> it, shown |-> shown, loss |-> loss, dev |-> dev])
          /\ UNCHANGED verdict
     ELSE pc' = "done" /\ verdict' = "ok" /\ UNCHANGED <<fi, hist>>
  /\ UNCHANGED <<cfg, geo, it, upd, old, agg, fitted, ignored, pred, shown, loss, loss0, change, dev, isdiv, ndiv>>

Skipped(f) == Hier /\ it < cfg.K /\ ~cfg.feats[f].hier

Skip ==
  /\ pc = "feat" /\ fi <= NF /\ Skipped(fi)
  /\ old' = [old EXCEPT ![fi] = upd[fi]]
  /\ fi' = fi + 1
  /\ UNCHANGED <<cfg, geo, pc, it, upd, agg, fitted, ignored, pred, shown, loss, loss0, change, dev, isdiv, ndiv, stop, hist, verdict>>

\* what estimation f is offered: without its own contribution unless aggregating.
\* After a withdrawn pass nothing of the feature is left in the prediction.
Offered(f) ==
  IF cfg.agg \/ isdiv THEN pred
  ELSE [r \in 1..NR |-> pred[r] - upd[f][geo.bin[f][r]]]

Smoothed(f, p, b) ==
  IF b = MissBin(f) THEN (IF cfg.feats[f].mnl THEN 0 ELSE p[b])
  ELSE IF ignored[f] \/ (cfg.disc /\ BinWeight(f, b) = 0) THEN 0 ELSE p[b]

Bounded(f, b, x) ==
  LET s == Clip(x, LnHalf, LnTwo)
      lo == LnLo(cfg.feats[f].ext, Dim(cfg, f))
      hi == LnHi(cfg.feats[f].ext, Dim(cfg, f))
  IN  IF fitted[f] THEN Clip(s, lo - agg[f][b], hi - agg[f][b]) ELSE s

\* group f, offered the prediction seen, changes its parameters by final
Update(f, seen, final) ==
  /\ old' = [old EXCEPT ![f] = upd[f]]
  /\ upd' = [upd EXCEPT ![f] = final]
  /\ agg' = [agg EXCEPT ![f] = IF cfg.agg THEN [b \in Bins(f) |-> agg[f][b] + final[b]] ELSE final]
  /\ fitted' = [fitted EXCEPT ![f] = TRUE]
  /\ pred' = [r \in 1..NR |-> seen[r] + final[geo.bin[f][r]]]

Estimate(f, p) ==
  LET q == Rate(it + 1, f)
      seen == Offered(f)
      raw == [b \in Bins(f) |-> Scale(Smoothed(f, p, b), q)]
      clipped == IF cfg.link = "log" /\ cfg.agg THEN [b \in Bins(f) |-> Bounded(f, b, raw[b])] ELSE raw
      damping == cfg.link = "log" /\ cfg.agg /\ isdiv
      alone == IF damping THEN LossOf([r \in 1..NR |-> seen[r] + clipped[geo.bin[f][r]]]) ELSE 0
      est(b) == IF b = MissBin(f) /\ cfg.feats[f].mnl THEN 0 ELSE p[b]
      final == IF damping /\ Diverged(alone)
               THEN IF ndiv > 1
                    THEN [b \in Bins(f) |-> -agg[f][b]]
                    ELSE [b \in Bins(f) |-> Clip(clipped[b], est(b) + LnDampLo, est(b) + LnDampHi)]
               ELSE clipped
  IN  /\ hist' = Append(hist, [ev |-> "est", it |-> it, f |-> f, p |-> p, rate |-> q, seen |-> seen, upd |-> final,
                               damped |-> damping /\ Diverged(alone)])
      /\ Update(f, seen, final)
      /\ ignored' = [ignored EXCEPT ![f] = @ \/ (damping /\ Diverged(alone) /\ ndiv > 1)]
      /\ IF damping /\ DivergedUnsure(alone)
         THEN pc' = "done" /\ verdict' = "unsure"
         ELSE UNCHANGED <<pc, verdict>>

Proposals(f) ==
  IF Random THEN {TLCEval([b \in Bins(f) |-> RandomElement(cfg.props)])} ELSE [Bins(f) -> cfg.props]

Step ==
  /\ pc = "feat" /\ fi <= NF /\ ~Skipped(fi)
  /\ \E p \in Proposals(fi) : Estimate(fi, p)
  /\ fi' = fi + 1
  /\ UNCHANGED <<cfg, geo, it, shown, loss, loss0, change, dev, isdiv, ndiv, stop>>

\* the pass ends with loss l; d: it is taken for diverging
Close(l, d, unsure, deviation) ==
  /\ pc = "feat" /\ fi > NF
  /\ shown' = pred
  /\ loss' = l
  /\ change' = IF loss # 0 THEN <<loss - l, loss>> ELSE <<loss - l, 1>>
  /\ isdiv' = d
  /\ ndiv' = IF d THEN ndiv + 1 ELSE ndiv
  /\ dev' = deviation
  /\ IF unsure
     THEN pc' = "done" /\ verdict' = "unsure" /\ UNCHANGED <<pred, agg, it>>
     ELSE IF d /\ ndiv = 4
     THEN pc' = "done" /\ verdict' = "error" /\ UNCHANGED <<pred, agg, it>>
     ELSE /\ pc' = "loop" /\ it' = it + 1 /\ UNCHANGED verdict
          /\ IF d
             THEN /\ pred' = [r \in 1..NR |-> LET F(f) == upd[f][geo.bin[f][r]] IN pred[r] - SumTo(F, NF)]
                  /\ agg' = [f \in 1..NF |-> [b \in Bins(f) |-> agg[f][b] - upd[f][b]]]
             ELSE UNCHANGED <<pred, agg>>
  /\ UNCHANGED <<cfg, geo, fi, upd, old, fitted, ignored, loss0, stop, hist>>
EndPass == LET l == LossOf(pred) IN Close(l, Diverged(l), DivergedUnsure(l), Dev(upd, old))

Next == Begin \/ Skip \/ Step \/ EndPass
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
(* Properties of the training loop                                           *)
Contribs(r) == LET F(f) == agg[f][geo.bin[f][r]] IN SumTo(F, NF)

\* C05, C06, C11: the running prediction is base + learned parameters at every pass boundary
Ledger == pc \in {"loop", "done"} /\ verdict \in {"none", "ok"} => \A r \in 1..NR : pred[r] = geo.base[r] + Contribs(r)

\* C05: what training returns is what the learned parameters predict
InSample == verdict = "ok" => shown = pred

\* C07
StopsForReason == verdict = "ok" => (\E i \in 1..3 : stop[i]) /\ ~isdiv
PassBound == verdict # "error" => it <= Max2(cfg.max, IF Hier THEN cfg.K + 1 ELSE 0) + ndiv + 1
RunsOn == pc = "feat" /\ ~isdiv /\ ~Hier => it < cfg.max

\* C08
NeverWorse == verdict = "ok" => loss <= 2 * loss0
AtMostFive == ndiv <= 5 /\ (verdict # "unsure" => (verdict = "error" <=> ndiv = 5))
Withdrawn == pc = "loop" /\ isdiv =>
  \A r \in 1..NR : pred[r] = geo.base[r] + Contribs(r) /\ (~cfg.agg => pred[r] = geo.base[r])

\* C09
WithinBounds == cfg.link = "log" /\ cfg.agg /\ ndiv = 0 =>
  \A f \in 1..NF : \A b \in Bins(f) :
    /\ Abs(upd[f][b]) <= LnTwo
    /\ agg[f][b] >= LnLo(cfg.feats[f].ext, Dim(cfg, f)) /\ agg[f][b] <= LnHi(cfg.feats[f].ext, Dim(cfg, f))

\* C10
HierFirst == Hier => \A f \in 1..NF : (~cfg.feats[f].hier /\ it < cfg.K) => ~fitted[f] /\ \A b \in Bins(f) : agg[f][b] = 0
AllEstimated == verdict = "ok" => \A f \in 1..NF : fitted[f]
InOrder == \A i, j \in 1..Len(hist) :
  (i < j /\ hist[i].ev = "est" /\ hist[j].ev = "est" /\ hist[i].it = hist[j].it) => hist[i].f < hist[j].f

\* C12
MissNeutral == \A f \in 1..NF : cfg.feats[f].mnl => agg[f][MissBin(f)] = 0

TypeOk == pc \in {"loop", "feat", "done"} /\ verdict \in {"none", "ok", "error", "unsure"}

-----------------------------------------------------------------------------
ProbeTuples(f) == [1..Dim(cfg, f) -> -1..(MaxOf({geo.nb[f][k] : k \in 1..Dim(cfg, f)}) + 1)]
RowSum(f) == LET F(r) == Abs(agg[f][geo.bin[f][r]]) IN SumTo(F, NR)

Outcome ==
  [cfg |-> cfg, verdict |-> verdict, it |-> it, stop |-> stop, ndiv |-> ndiv, isdiv |-> isdiv, loss |-> loss, loss0 |-> loss0,
   shown |-> shown, base |-> geo.base, hist |-> hist, nb |-> geo.nb, dev |-> dev,
   imp |-> [f \in 1..NF |-> RowSum(f)],
   contrib |-> [f \in 1..NF |-> {<<t, Contribution(f, t)>> : t \in {u \in ProbeTuples(f) : \A k \in DOMAIN u : u[k] <= geo.nb[f][k] + 1}}],
   pbase |-> IF cfg.prior = <<>> THEN {} ELSE {<<p, BaseOf(cfg, p)>> : p \in {1, 2, 3, NaN, PInf, NInf, 0, -2} }]

Emit ==
  pc = "done" =>
    IF verdict = "unsure" THEN PrintT("@" \o ToJson([verdict |-> "unsure"]))
    ELSE PrintT("@" \o ToJson(Outcome))
=============================================================================
