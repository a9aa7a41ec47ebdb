----------------------------- MODULE Pipelines ------------------------------
(* Routing of factory options.  Options are given one by one; each reaches    *)
(* the parameters of that name the binner and the estimator have, and nothing *)
(* else.  Options not given have the defaults of the factory.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Estimators, Random, MinOptions, MaxOptions

Common == {"feature_properties", "weight_column", "minimal_loss_change", "minimal_factor_change", "maximal_iterations",
           "observers", "smoother_choice", "output_column", "learn_rate"}
Standard == {"feature_groups", "hierarchical_feature_groups", "aggregate", "prior_prediction_column"}
\* parameters of the estimators that factories know about
Has(e) ==
  Common \cup
  CASE e \in {"CBPoissonRegressor", "CBLocPoissonRegressor", "CBLocationRegressor", "CBClassifier"} -> Standard
    [] e = "CBNBinomRegressor" -> Standard \cup {"a", "c"}
    [] e = "CBExponential" -> {"external_colname", "standard_feature_groups", "external_feature_groups", "prior_prediction_column",
                               "var_prior_exponent", "prior_exponent_colname", "a", "c"}
    [] e = "CBNBinomC" -> {"mean_prediction_column", "feature_groups", "prior_prediction_column", "gamma", "bayes", "n_steps"}
    [] e = "CBGBSRegressor" -> {"feature_groups", "hierarchical_feature_groups", "aggregate", "regalpha"}
    [] e \in {"CBMultiplicativeQuantileRegressor", "CBAdditiveQuantileRegressor"} -> Standard \cup {"quantile"}
    [] OTHER -> Standard \cup {"costs"}
\* options of the binner and the names of its parameters
Binner == [number_of_bins |-> "n_bins", feature_properties |-> "feature_properties", inplace |-> "inplace"]
Options == UNION {Has(e) : e \in Estimators} \cup DOMAIN Binner

VARIABLES est, given, cb, bin, pc
vars == <<est, given, cb, bin, pc>>
Pick(S) == IF Random THEN {RandomElement(S)} ELSE S

GivenSet == {given[i] : i \in DOMAIN given}

Init == est \in Pick(Estimators) /\ given = <<>> /\ cb = {} /\ bin = {} /\ pc = "give"
\* an option the estimator lacks must not have any effect
Give == pc = "give" /\ Len(given) < MaxOptions /\ \E o \in Pick(Options \ GivenSet) :
  /\ given' = Append(given, o)
  /\ cb' = IF o \in Has(est) THEN cb \cup {o} ELSE cb
  /\ bin' = IF o \in DOMAIN Binner THEN bin \cup {Binner[o]} ELSE bin
  /\ UNCHANGED <<est, pc>>
Build == pc = "give" /\ Len(given) >= MinOptions /\ pc' = "done" /\ UNCHANGED <<est, given, cb, bin>>
Next == Give \/ Build
Spec == Init /\ [][Next]_vars

\* every option of a component arrives there, whatever the order, and nothing else does
Routed == cb = GivenSet \cap Has(est) /\ bin = {Binner[o] : o \in GivenSet \cap DOMAIN Binner}
NothingLost == \A o \in GivenSet : o \in Has(est) => o \in cb
Emit == pc = "done" => PrintT("@" \o ToJson([est |-> est, given |-> given, cb |-> cb, bin |-> bin, ignored |-> GivenSet \ (cb \cup DOMAIN Binner)]))
=============================================================================
