------------------------------- MODULE Flags -------------------------------
(* Feature properties.  A property is a set of facts; a named flag stands    *)
(* for one or several facts, and combining flags unites their facts.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Stray,      \* facts no name stands for
          Columns, MaxGroup,
          Mode        \* "names", "values" or "lookup"

Facts == {"continuous", "ordered", "unordered", "monotonic", "missing", "not_learned", "original",
          "corr", "linear", "seasonal", "magic", "increasing", "decreasing"}
Meaning == [IS_CONTINUOUS |-> {"continuous"}, IS_ORDERED |-> {"ordered"}, IS_UNORDERED |-> {"unordered"},
  IS_MONOTONIC |-> {"continuous", "monotonic"}, HAS_MISSING |-> {"missing"},
  MISSING_NOT_LEARNED |-> {"missing", "not_learned"}, USE_ORIGINAL |-> {"original"},
  CORR_TO_WIDTH |-> {"corr"}, IS_LINEAR |-> {"linear"}, IS_SEASONAL |-> {"seasonal"},
  HAS_MAGIC_INT_MISSING |-> {"missing", "magic"}, INCREASING |-> {"increasing"}, DECREASING |-> {"decreasing"}]
Names == DOMAIN Meaning

\* answers about a property
Has(v, n) == Meaning[n] \subseteq v
Named(v) == {n \in Names : Has(v, n)}
Joined(S) == UNION {Meaning[n] : n \in S}
Describable(v) == Joined(Named(v)) = v
Consistent(v) == Cardinality(v \cap {"continuous", "ordered", "unordered"}) = 1
                 /\ ~({"increasing", "decreasing"} \subseteq v)

\* entries of a dictionary of properties: absent, None, or a value (0 being one)
Entries == {"absent", "none", "zero", "one", "two"}
Found(e) == IF e \in {"absent", "none"} THEN "default" ELSE e
Group == UNION {[1..n -> Columns] : n \in 0..MaxGroup}

VARIABLES value, used, dict, given
vars == <<value, used, dict, given>>

Init ==
  /\ value = {} /\ used = {}
  /\ given \in (IF Mode = "lookup" THEN BOOLEAN ELSE {FALSE})
  /\ dict \in (IF given THEN [Columns -> Entries] ELSE {[c \in Columns |-> "absent"]})
\* a named flag is combined with the property
Combine(n) ==
  /\ n \notin used
  /\ used' = used \cup {n} /\ value' = value \cup Meaning[n] /\ UNCHANGED <<dict, given>>
\* a single fact is added or taken away by arithmetic on the number
Toggle(f) ==
  /\ value' = IF f \in value THEN value \ {f} ELSE value \cup {f}
  /\ used' = {} /\ UNCHANGED <<dict, given>>
Next == \/ Mode = "names" /\ \E n \in Names : Combine(n)
        \/ Mode = "values" /\ \E f \in Facts \cup Stray : Toggle(f)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* what was combined is found again, and naming a property loses nothing
KeepsUsed == \A n \in used : Has(value, n)
ClosedUnderUse == Mode = "names" => value = Joined(used) /\ Describable(value)
RoundTrip == Describable(value) => Named(Joined(Named(value))) = Named(value)
OnlyStrayOrPartial == ~Describable(value) <=>
  \/ value \cap Stray # {}
  \/ "monotonic" \in value /\ "continuous" \notin value
  \/ value \cap {"not_learned", "magic"} # {} /\ "missing" \notin value
Implied == (Has(value, "IS_MONOTONIC") => Has(value, "IS_CONTINUOUS"))
           /\ (Has(value, "MISSING_NOT_LEARNED") \/ Has(value, "HAS_MAGIC_INT_MISSING") => Has(value, "HAS_MISSING"))

Emit == IF Mode # "lookup"
  THEN PrintT("@" \o ToJson([facts |-> value, used |-> used, named |-> Named(value), describable |-> Describable(value), consistent |-> Consistent(value)]))
  ELSE PrintT("@" \o ToJson([given |-> given, dict |-> dict,
         single |-> [c \in Columns |-> Found(dict[c])],
         groups |-> {[group |-> g, found |-> [i \in DOMAIN g |-> Found(dict[g[i]])]] : g \in Group}]))
=============================================================================
