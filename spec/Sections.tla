------------------------------ MODULE Sections ------------------------------
(* Smoothing in parts.  Rows of a table arrive in any order that keeps the   *)
(* order inside each part; the parts are groups (group-by smoothing) or the  *)
(* two sides of a split point.  Each part is smoothed on its own.            *)
EXTENDS TLC, Json, SmoothOps

CONSTANTS Configs,  \* records, see below
          Random

\* cfg.kind: "groups" or "split"
\* cfg.sizes: number of rows of each part (group-by: one per group; split: lower, upper)
\* cfg.inner: smoother of each part: "values", "mean", "prior", "up", "down", "line"
\* cfg.coords: coordinates of the rows of each part
\* cfg.values, cfg.ws: sets of values and inverse variances
\* cfg.dead: parts whose rows have no weight (group-by)

VARIABLES cfg, parts, order, pc
vars == <<cfg, parts, order, pc>>

NP == Len(cfg.sizes)
Pick(S) == IF Random THEN {RandomElement(S)} ELSE S

Init == cfg \in Configs /\ parts = [p \in 1..Len(cfg.sizes) |-> <<>>] /\ order = <<>> /\ pc = "collect"
Open == {p \in 1..NP : Len(parts[p]) < cfg.sizes[p]}
AddRow ==
  /\ pc = "collect"
  /\ \E p \in (IF Open = {} THEN {} ELSE Pick(Open)), x \in Pick(cfg.values), w \in Pick(cfg.ws) :
       /\ parts' = [parts EXCEPT ![p] = Append(@, <<x, w, cfg.coords[p][Len(parts[p]) + 1]>>)]
       /\ order' = Append(order, p)
  /\ UNCHANGED <<cfg, pc>>
Finish == pc = "collect" /\ Open = {} /\ pc' = "done" /\ UNCHANGED <<cfg, parts, order>>
Next == AddRow \/ Finish
Spec == Init /\ [][Next]_vars

\* value at coordinate c of part p, by its smoother fitted to its own rows only
Smoothed(kind, s, c) ==
  LET at == {i \in DOMAIN s : PC(s[i]) = c}
      i == CHOOSE i \in at : TRUE
  IN  IF s = <<>> THEN Undefined
      ELSE CASE kind = "line" -> LineAt(s, c)
             [] kind = "up" -> MonotoneAt(s, TRUE, c)
             [] kind = "down" -> MonotoneAt(s, FALSE, c)
             [] OTHER -> IF at = {} THEN Undefined
                         ELSE CASE kind = "values" -> Q(PX(s[i]))
                                [] kind = "mean" -> ToMean(s, i)
                                [] kind = "prior" -> ToPrior(s, 0, i)
Value(p, c) == IF p \in cfg.dead THEN Undefined ELSE Smoothed(cfg.inner[p], parts[p], c)

PartOf(c) == IF 2 * c <= cfg.split THEN 1 ELSE 2     \* split point in halves
ValueAt(c) == Value(PartOf(c), c)

-----------------------------------------------------------------------------
\* other parts have no influence
Independent == pc = "done" => \A p \in 1..NP : \A c \in cfg.probes :
  LET alone == [q \in 1..NP |-> IF q = p THEN parts[p] ELSE <<>>]
  IN  p \notin cfg.dead => Value(p, c) = Smoothed(cfg.inner[p], alone[p], c)
ProperSides == pc = "done" /\ cfg.kind = "split" =>
  /\ \A i \in DOMAIN parts[1] : 2 * PC(parts[1][i]) <= cfg.split
  /\ \A i \in DOMAIN parts[2] : 2 * PC(parts[2][i]) > cfg.split
Complete == pc = "done" => \A p \in 1..NP : Len(parts[p]) = cfg.sizes[p] /\ Cardinality({i \in DOMAIN order : order[i] = p}) = cfg.sizes[p]

Emit == pc = "done" =>
  PrintT("@" \o ToJson([cfg |-> [kind |-> cfg.kind, sizes |-> cfg.sizes, inner |-> cfg.inner, split |-> cfg.split, dead |-> cfg.dead, keys |-> cfg.keys],
                        parts |-> parts, order |-> order,
                        out |-> IF cfg.kind = "groups" THEN {<<p, c, Value(p, c)>> : p \in 1..NP, c \in cfg.probes}
                                ELSE {<<PartOf(c), c, ValueAt(c)>> : c \in cfg.probes}]))
=============================================================================
