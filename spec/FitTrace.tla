------------------------------ MODULE FitTrace ------------------------------
(* Recorded trainings of the real estimators, judged against Trainer.tla.    *)
(* What an estimation and the smoothing after it come up with is open; all   *)
(* the rest (schedule, offered predictions, one parameter per bin, bounds,   *)
(* stop decisions, divergence, what the finished model says) is the          *)
(* training loop of Trainer.tla.  The verdict is total: a trace that does    *)
(* not fit is not stuck but collects the names of the failing clauses.       *)
(*                                                                           *)
(* A trace has cfg (as in Trainer), base (link-scale base level per row),    *)
(* events and what the finished model says (final).  Units are 1e-5.         *)
EXTENDS Trainer

Traces == ndJsonDeserialize("traces.ndjson")

VARIABLES tid, k, nupd, bad
tvars == <<cfg, geo, pc, it, fi, upd, old, agg, fitted, ignored, pred, shown, loss, loss0, change, dev, isdiv, ndiv, stop, hist, verdict, tid, k, nupd, bad>>

E == Traces[tid].events
Ev == E[k]
Final == Traces[tid].final
Near(a, b, tol) == Abs(a - b) <= tol
Off(p, q, tol) == \E r \in 1..NR : ~Near(p[r], q[r], tol)
\* every update is a difference of two rounded predictions
Tol == 4 + NF + 2 * nupd
\* some models cut their predictions (not the running one) off at zero
Cut(x) == IF cfg.floor THEN Max2(x, 0) ELSE x
CutRows(p) == [r \in 1..NR |-> Cut(p[r])]
Clause(name, broken) == IF broken THEN {name} ELSE {}

TInit ==
  /\ tid \in 1..Len(Traces)
  /\ cfg = Traces[tid].cfg
  /\ geo = [Geometry(cfg) EXCEPT !.base = Traces[tid].base]
  /\ pc = "loop" /\ it = 0 /\ fi = 0
  /\ upd = [f \in 1..Len(cfg.feats) |-> [b \in 1..geo.n[f] |-> 0]]
  /\ old = upd /\ agg = upd
  /\ fitted = [f \in 1..Len(cfg.feats) |-> FALSE]
  /\ ignored = fitted
  /\ pred = geo.base /\ shown = geo.base
  /\ loss = Traces[tid].loss0 /\ loss0 = loss
  /\ change = <<0, 0>> /\ dev = 0
  /\ isdiv = FALSE /\ ndiv = 0
  /\ stop = <<FALSE, FALSE, FALSE>>
  /\ hist = <<>> /\ verdict = "none"
  /\ k = 1 /\ nupd = 0 /\ bad = {}

Give(why) == pc' = "done" /\ verdict' = "broken" /\ bad' = bad \cup {why}
Rest == <<cfg, geo, it, upd, old, agg, fitted, ignored, pred, shown, loss, loss0, change, dev, isdiv, ndiv, hist, tid, nupd>>

-----------------------------------------------------------------------------
(* bins that training rows determine *)
HasRows(f, b) == \E r \in 1..NR : geo.bin[f][r] = b
AllHaveRows == \A f \in 1..NF : \A b \in Bins(f) : HasRows(f, b)
Known(f, a) == a = 0 \/ HasRows(f, a) \/ (a = MissBin(f) /\ cfg.feats[f].mnl)

ProbeOff(p) ==
  LET tup(f) == [j \in 1..Dim(cfg, f) |-> p.row[cfg.feats[f].cols[j]]]
      F(f) == Contribution(f, tup(f))
      judged == \A f \in 1..NF : Known(f, Address(tup(f), geo.nb[f]))
  IN  judged /\ ~Near(p.value, Cut(geo.base[p.r] + SumTo(F, NF)), Tol)

LedgerOff == Off(pred, [r \in 1..NR |-> geo.base[r] + Contribs(r)], Tol)

Finished ==
  Clause("C07 number of passes", Final.passes # it)
  \cup Clause("C07 criteria reported", ~Unsure /\ Final.stop # <<StopIter, StopDev, StopLoss>>)
  \cup Clause("C05 prediction of the training rows", Off(Final.insample, CutRows(shown), 3) \/ Off(Final.predict, Final.insample, 3))
  \cup Clause("C06 base plus contributions",
         Off(Final.predict, [r \in 1..NR |-> LET F(f) == Final.contrib[f][r] IN Cut(geo.base[r] + SumTo(F, NF))], 4 + NF))
  \cup Clause("C11 contributions are the summed updates",
         \E f \in 1..NF : Off(Final.contrib[f], [r \in 1..NR |-> agg[f][geo.bin[f][r]]], Tol))
  \cup Clause("C12 missing or unknown bins", \E i \in DOMAIN Final.probes : ProbeOff(Final.probes[i]))
  \cup Clause("C10 groups left untrained", \E f \in 1..NF : ~fitted[f] /\ it > 0)

TBegin ==
  /\ pc = "loop" /\ Ev.ev \in {"pass", "end"}
  /\ LET on == Ev.ev = "pass"
         told == Clause("C13 pass number told", Ev.it # (IF on THEN it ELSE -1))
                 \cup Clause("C13 loss told", ~Near(Ev.loss, loss, 2))
                 \cup Clause("C13 prediction told", Off(Ev.shown, shown, 4))
                 \cup Clause("C11 ledger", LedgerOff)
                 \cup Clause("C07 decision", ~Unsure /\ Continue # on)
     IN /\ bad' = bad \cup told \cup (IF on THEN {} ELSE Finished)
        /\ IF on THEN pc' = "feat" /\ fi' = 1 /\ verdict' = verdict
           ELSE pc' = "done" /\ verdict' = "ok" /\ fi' = fi
        /\ stop' = <<StopIter, StopDev, StopLoss>>
        /\ k' = k + 1
  /\ UNCHANGED Rest

TSkip == Skip /\ UNCHANGED <<tid, k, nupd, bad>>

\* the prediction right after event k, which is an estimation
After ==
  LET n == E[k + 1]
  IN  IF n.ev = "est" /\ ~cfg.agg /\ ~isdiv
      THEN [r \in 1..NR |-> n.seen[r] + upd[n.f][geo.bin[n.f][r]]]
      ELSE IF n.ev = "est" THEN n.seen ELSE n.shown
FirstIn(f, b) == CHOOSE r \in 1..NR : geo.bin[f][r] = b /\ \A s \in 1..(r - 1) : geo.bin[f][s] # b

TStep ==
  /\ pc = "feat" /\ fi <= NF /\ ~Skipped(fi)
  /\ Ev.ev = "est" /\ Ev.f = fi /\ E[k + 1].ev # "error"
  /\ LET f == fi
         u == [b \in Bins(f) |-> IF HasRows(f, b) THEN After[FirstIn(f, b)] - Ev.seen[FirstIn(f, b)] ELSE 0]
         lo == LnLo(FALSE, Dim(cfg, f))
         hi == LnHi(FALSE, Dim(cfg, f))
         bounded == cfg.link = "log" /\ cfg.agg /\ ndiv = 0
     IN /\ Update(f, Ev.seen, u)
        /\ bad' = bad
             \cup Clause("C11 prediction offered", Off(Ev.seen, Offered(f), 4))
             \cup Clause("C11 update by bin", Off(After, [r \in 1..NR |-> Ev.seen[r] + u[geo.bin[f][r]]], 4))
             \cup Clause("C09 size of an update", bounded /\ \E b \in Bins(f) : Abs(u[b]) > LnTwo + 3)
             \cup Clause("C09 size of a parameter", bounded /\ \E b \in Bins(f) : agg[f][b] + u[b] < lo - Tol \/ agg[f][b] + u[b] > hi + Tol)
             \cup Clause("C12 missing values not learned", cfg.feats[f].mnl /\ Abs(u[MissBin(f)]) > 3)
             \cup Clause("C13 estimations told", Ev.told # <<<<it, f - 1>>>>)
  /\ fi' = fi + 1 /\ k' = k + 1 /\ nupd' = nupd + 1
  /\ UNCHANGED <<cfg, geo, pc, it, ignored, shown, loss, loss0, change, dev, isdiv, ndiv, stop, hist, verdict, tid>>

\* training was given up
TError ==
  /\ pc # "done"
  /\ \/ pc = "feat" /\ fi <= NF /\ ~Skipped(fi) /\ Ev.ev = "est" /\ Ev.f = fi /\ E[k + 1].ev = "error"
     \/ Ev.ev = "error"
  /\ IF (Ev.ev = "est" /\ ndiv = 4) \/ (Ev.ev = "error" /\ Ev.final) THEN pc' = "done" /\ verdict' = "error" /\ UNCHANGED bad
     ELSE Give("C08 given up after " \o ToString(ndiv) \o " diverging passes")
  /\ UNCHANGED Rest /\ UNCHANGED <<fi, stop, k>>

TClose ==
  /\ pc = "feat" /\ fi > NF /\ Ev.ev \in {"pass", "end"}
  /\ Close(Ev.loss, Diverged(Ev.loss), DivergedUnsure(Ev.loss), 16 * NF * Ev.delta)
  /\ bad' = bad
       \cup Clause("C08 fifth diverging pass accepted", Diverged(Ev.loss) /\ ~DivergedUnsure(Ev.loss) /\ ndiv = 4)
       \cup Clause("C07 mean change of the parameters", AllHaveRows /\ ~Near(Dev(upd, old), 16 * NF * Ev.delta, 16 * NF * 8))
  /\ UNCHANGED <<tid, k, nupd>>

\* nothing else may happen
Expected ==
  \/ pc = "loop" /\ Ev.ev \in {"pass", "end"}
  \/ pc = "feat" /\ fi <= NF /\ Skipped(fi)
  \/ pc = "feat" /\ fi <= NF /\ Ev.ev = "est" /\ Ev.f = fi
  \/ pc = "feat" /\ fi > NF /\ Ev.ev \in {"pass", "end"}
  \/ Ev.ev = "error"
TOdd ==
  /\ pc # "done" /\ ~Expected
  /\ Give((IF Hier THEN "C10" ELSE "C13") \o " schedule: " \o Ev.ev \o " in pass " \o ToString(it) \o " instead of group " \o ToString(fi))
  /\ UNCHANGED Rest /\ UNCHANGED <<fi, stop, k>>

TNext == TBegin \/ TSkip \/ TStep \/ TClose \/ TError \/ TOdd
Report == pc = "done" => PrintT("@" \o ToJson([id |-> Traces[tid].id, verdict |-> verdict, bad |-> bad, passes |-> it, diverging |-> ndiv, updates |-> nupd]))
\* every trace is judged
Judged == pc = "done" \/ k <= Len(E)
=============================================================================
