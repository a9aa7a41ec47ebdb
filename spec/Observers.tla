------------------------------ MODULE Observers ------------------------------
(* Plotting observers that watch a series of trainings.  A training of n     *)
(* passes gives the notifications 0, ..., n-1 (before each pass) and a last  *)
(* one; it may break off before.  A notification is named <<training, k>>,   *)
(* the last one of n passes has k = n.  An observer that wants pass k keeps  *)
(* the losses up to notification k and the state of the model at k; one that *)
(* wants the end (-1) keeps all.  The state at which a training of exactly k *)
(* passes ended is not promised to an observer that wants k.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Wants, MaxPasses, MaxTrainings, Random

VARIABLES t, k, notes, rec, done, pc
vars == <<t, k, notes, rec, done, pc>>

None == <<0, 0>>
Empty == [loss |-> <<>>, change |-> <<>>, filled |-> FALSE, snap |-> None]

\* what an observer makes of a notification
See(o, w, n, last) ==
  LET fresh == IF n[2] = 0 /\ ~last THEN [o EXCEPT !.loss = <<>>, !.change = <<>>, !.filled = FALSE] ELSE o
      keeps == w = -1 \/ (~last /\ n[2] <= w)
      kept == IF ~keeps THEN fresh
              ELSE [fresh EXCEPT !.loss = Append(@, n), !.change = IF n[2] = 0 THEN @ ELSE Append(@, n)]
  IN  IF (last /\ w = -1) \/ (~last /\ n[2] = w) THEN [kept EXCEPT !.filled = TRUE, !.snap = n] ELSE kept
All(n, last) == rec' = [w \in Wants |-> See(rec[w], w, n, last)]

Init == t = 0 /\ k = 0 /\ notes = <<>> /\ done = <<>> /\ pc = "idle" /\ rec = [w \in Wants |-> Empty]

Start ==
  /\ pc = "idle" /\ t < MaxTrainings
  /\ t' = t + 1 /\ k' = 0 /\ pc' = "told" /\ notes' = <<<<t + 1, 0>>>>
  /\ All(<<t + 1, 0>>, FALSE) /\ UNCHANGED done
Pass ==
  /\ pc = "told" /\ k < MaxPasses
  /\ k' = k + 1 /\ pc' = "passed" /\ UNCHANGED <<t, notes, rec, done>>
Continue ==
  /\ pc = "passed" /\ k < MaxPasses
  /\ pc' = "told" /\ notes' = Append(notes, <<t, k>>) /\ All(<<t, k>>, FALSE) /\ UNCHANGED <<t, k, done>>
End ==
  /\ pc = "passed"
  /\ pc' = "idle" /\ notes' = Append(notes, <<t, k>>) /\ All(<<t, k>>, TRUE)
  /\ done' = Append(done, [passes |-> k, broken |-> FALSE, rec |-> rec']) /\ UNCHANGED <<t, k>>
\* the training is abandoned right after a notification
Break ==
  /\ pc = "told"
  /\ pc' = "idle" /\ done' = Append(done, [passes |-> k, broken |-> TRUE, rec |-> rec])
  /\ UNCHANGED <<t, k, notes, rec>>
Next == Start \/ Pass \/ Continue \/ End \/ Break
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* an observer describes the running or last training only
OneTraining == t > 0 => \A w \in Wants : \A i \in DOMAIN rec[w].loss : rec[w].loss[i][1] = t
\* the losses are those of the first notifications in order
Prefix == \A w \in Wants : \A i \in DOMAIN rec[w].loss : rec[w].loss[i] = notes[i]
Enough == t > 0 => \A w \in Wants : Len(rec[w].loss) = (IF w = -1 \/ Len(notes) - 1 < w THEN Len(notes) - (IF w # -1 /\ pc = "idle" /\ ~done[Len(done)].broken THEN 1 ELSE 0)
                                                        ELSE IF w = Len(notes) - 1 /\ pc = "idle" /\ ~done[Len(done)].broken THEN w ELSE w + 1)
\* one change per pass seen
Changes == t > 0 => \A w \in Wants : rec[w].change = Tail(rec[w].loss)
\* a filled observer holds the state of its pass in this training
Snapshot == \A w \in Wants : rec[w].filled => rec[w].snap[1] = t /\ rec[w].snap = rec[w].loss[Len(rec[w].loss)] /\ (w # -1 => rec[w].snap[2] = w)
Filled == (pc = "idle" /\ t > 0) =>
  \A w \in Wants : rec[w].filled <=> (IF w = -1 THEN ~done[t].broken ELSE (IF done[t].broken THEN w <= k ELSE w < k))

Emit == (pc = "idle" /\ t = MaxTrainings) =>
  PrintT("@" \o ToJson([trainings |-> [i \in DOMAIN done |-> [passes |-> done[i].passes, broken |-> done[i].broken,
    rec |-> {[want |-> w, loss |-> [j \in DOMAIN done[i].rec[w].loss |-> done[i].rec[w].loss[j][2]],
              change |-> [j \in DOMAIN done[i].rec[w].change |-> done[i].rec[w].change[j][2]],
              filled |-> done[i].rec[w].filled, snap |-> done[i].rec[w].snap[2],
              open |-> (w = done[i].passes /\ ~done[i].broken)] : w \in Wants}]]]))
=============================================================================
