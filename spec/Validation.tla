----------------------------- MODULE Validation -----------------------------
(* Calls with admissible and inadmissible input.  Targets are classified      *)
(* entry by entry against the domain of the estimator; other defects of a     *)
(* call are named by the part that is wrong.  A rejected target or size is    *)
(* noticed before anything is learned, so the model in force stays the same.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Domain,      \* "count", "real" or "binary"
          MaxEntries,  \* number of classified target entries
          Depth, Random

Values == {"neg", "zero", "half", "one", "two", "nan", "inf", "ninf"}
Admissible ==
  CASE Domain = "count"  -> {"zero", "half", "one", "two"}
    [] Domain = "real"   -> {"neg", "zero", "half", "one", "two"}
    [] Domain = "binary" -> {"zero", "one"}
\* whether a multiplicative model takes an infinite target is left open
Open == IF Domain = "count" THEN {"inf"} ELSE {}

EarlyDefects == {"empty", "empty data", "empty target", "longer target", "shorter target", "single target"}
LateDefects == {"unknown weight column", "unknown prior column", "unknown feature column"}
AskDefects == {"no output column", "existing output column", "array"}
BuildDefects == {"empty groups", "wrong smoother choice", "smoother under a bare name", "explicit smoother is none",
                 "external among standard", "standard among external", "no standard groups"}

VARIABLES target,  \* entries of the target being assembled
          model,   \* 0: none, n: n-th training succeeded, -1: left open
          count,   \* trainings so far
          hist
vars == <<target, model, count, hist>>
Pick(S) == IF Random THEN {RandomElement(S)} ELSE S
More == Len(hist) < Depth
Log(e) == hist' = Append(hist, e)

Init == target = <<>> /\ model = 0 /\ count = 0 /\ hist = <<>>
Enter == More /\ Len(target) < MaxEntries /\ \E v \in Pick(Values \ Open) :
  target' = Append(target, v) /\ UNCHANGED <<model, count, hist>>
Good == \A i \in DOMAIN target : target[i] \in Admissible
Train == More /\ Len(target) = MaxEntries
  /\ (IF Good THEN count' = count + 1 /\ model' = count + 1 ELSE UNCHANGED <<count, model>>)
  /\ Log([op |-> "train", target |-> target, defect |-> "", ok |-> Good, model |-> model'])
  /\ target' = <<>>
TrainEarly == More /\ target = <<>> /\ \E d \in Pick(EarlyDefects) :
  Log([op |-> "train", target |-> <<>>, defect |-> d, ok |-> FALSE, model |-> model]) /\ UNCHANGED <<target, model, count>>
TrainLate == More /\ target = <<>> /\ \E d \in Pick(LateDefects) :
  Log([op |-> "train", target |-> <<>>, defect |-> d, ok |-> FALSE, model |-> -1]) /\ model' = -1 /\ UNCHANGED <<target, count>>
Ask == More /\ target = <<>> /\ model # -1 /\ \E how \in Pick({"predict", "transform"}) :
  Log([op |-> how, defect |-> "", ok |-> model > 0, model |-> model]) /\ UNCHANGED <<target, model, count>>
AskWrong == More /\ target = <<>> /\ \E how \in Pick({"transform", "fit_transform"}), d \in Pick(AskDefects) :
  Log([op |-> how, defect |-> d, ok |-> FALSE, model |-> model]) /\ UNCHANGED <<target, model, count>>
BuildWrong == More /\ target = <<>> /\ \E d \in Pick(BuildDefects) :
  Log([op |-> "build", defect |-> d, ok |-> FALSE, model |-> model]) /\ UNCHANGED <<target, model, count>>
Next == Enter \/ Train \/ TrainEarly \/ TrainLate \/ Ask \/ AskWrong \/ BuildWrong
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* only an accepted training produces a new model, and rejected calls never bring an old one back
Persistent == [][model' # model => (model' = count' /\ count' = count + 1) \/ model' = -1]_vars
DomainsNested ==
  /\ Domain = "binary" => Admissible \subseteq {"zero", "half", "one", "two"}
  /\ Domain = "count" => Admissible \subseteq {"neg", "zero", "half", "one", "two"}
Consistent == \A i \in DOMAIN hist : hist[i].op = "train" /\ hist[i].defect = "" =>
  (hist[i].ok <=> \A k \in DOMAIN hist[i].target : hist[i].target[k] \in Admissible)
Emit == Len(hist) = Depth => PrintT("@" \o ToJson([domain |-> Domain, hist |-> hist]))
=============================================================================
