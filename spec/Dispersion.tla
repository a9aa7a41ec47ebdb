----------------------------- MODULE Dispersion -----------------------------
(* Grid search for the dispersion of negative binomial counts.  In pass k a  *)
(* feature may move each of its bins by one candidate of a grid, on the      *)
(* logit scale.  Candidates are numbered -M..M; candidate 0 stays, candidate *)
(* i > 0 moves by 10 to the power of Exponent(i), candidate -i by as much    *)
(* downwards.  The likelihood itself is evaluated outside; here are the grid *)
(* and those bins whose best candidate follows from the shape of the         *)
(* likelihood: counts of zero only are the more likely the larger the        *)
(* dispersion, and a strong penalty wins over every likelihood.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rational

CONSTANTS Features, Bins, Counts, Means, Sizes, Penalties, Strong,
          MinRows, MaxRows, MaxPasses, Random

Missing == -1
VARIABLES rows, cfg, pass, turn, steps, pc
vars == <<rows, cfg, pass, turn, steps, pc>>

Draw(S) == RandomElement(IF Len(rows) >= 0 THEN S ELSE {})
Pick(S) == IF Random THEN {Draw(S)} ELSE S
Configs == [size : Sizes, penalty : Penalties, bayes : BOOLEAN, prior : BOOLEAN, passes : 1..MaxPasses]
RandomConfig == [size |-> Draw(Sizes), penalty |-> Draw(Penalties), bayes |-> Draw(BOOLEAN), prior |-> Draw(BOOLEAN), passes |-> Draw(1..MaxPasses)]
Rows == [bin : [1..Features -> Bins], y : Counts, mu : Means]
RandomRow == [bin |-> [f \in 1..Features |-> Draw(Bins)], y |-> Draw(Counts), mu |-> Draw(Means)]

Init == rows = <<>> /\ cfg = <<>> /\ pass = 1 /\ turn = 1 /\ steps = <<>> /\ pc = "rows"
AddRow ==
  /\ pc = "rows" /\ Len(rows) < MaxRows
  /\ \E r \in (IF Random THEN {RandomRow} ELSE Rows) : rows' = Append(rows, r)
  /\ UNCHANGED <<cfg, pass, turn, steps, pc>>
Configure ==
  /\ pc = "rows" /\ Len(rows) >= MinRows
  /\ \E c \in (IF Random THEN {RandomConfig} ELSE Configs) : cfg' = <<c>>
  /\ pc' = "search" /\ UNCHANGED <<rows, pass, turn, steps>>

-----------------------------------------------------------------------------
(* the grid of pass k *)
M(size, k) == size \div k
Exponent(size, k, i) ==          \* of candidate i > 0
  IF M(size, k) = 1 THEN Q(-3)
  ELSE Add(Q(-3), Mul(Add(Q(3), Frac(1, k)), Frac(i - 1, M(size, k) - 1)))
Candidates(size, k) == (-M(size, k))..M(size, k)

AllBins == Bins \cup {Missing}
InBin(f, b) == {i \in DOMAIN rows : rows[i].bin[f] = b}
OnlyZeros(f, b) == InBin(f, b) # {} /\ \A i \in InBin(f, b) : rows[i].y = 0
Free == {}
(* candidates the search may take, as far as the shape of the likelihood tells; {} = all *)
Forced(c, k, f, b) ==
  CASE InBin(f, b) = {} -> {0}
    [] InBin(f, b) # {} /\ M(c.size, k) = 0 -> {0}
    [] InBin(f, b) # {} /\ M(c.size, k) > 0 /\ ~c.bayes /\ c.penalty = 0 /\ OnlyZeros(f, b) -> {M(c.size, k)}
    [] InBin(f, b) # {} /\ M(c.size, k) > 0 /\ ~c.bayes /\ c.penalty = Strong -> {-M(c.size, k)}
    [] OTHER -> Free
Result(c, k, f) == [b \in AllBins |-> Forced(c, k, f, b)]

Search ==
  /\ pc = "search"
  /\ LET c == cfg[1] IN
       /\ steps' = Append(steps, [pass |-> pass, feature |-> turn, forced |-> Result(c, pass, turn)])
       /\ IF turn < Features THEN turn' = turn + 1 /\ UNCHANGED <<pass, pc>>
          ELSE /\ turn' = 1
               /\ IF pass < c.passes THEN pass' = pass + 1 /\ UNCHANGED pc
                  ELSE pc' = "done" /\ UNCHANGED pass
  /\ UNCHANGED <<rows, cfg>>
Next == AddRow \/ Configure \/ Search
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Grid(size, k) == [i \in 1..M(size, k) |-> Exponent(size, k, i)]
Ascending == \A s \in Sizes, k \in 1..MaxPasses : \A i \in 2..M(s, k) : Less(Exponent(s, k, i - 1), Exponent(s, k, i))
Ends == \A s \in Sizes, k \in 1..MaxPasses : M(s, k) >= 1 =>
          /\ Exponent(s, k, 1) = Q(-3)
          /\ (M(s, k) >= 2 => Exponent(s, k, M(s, k)) = Frac(1, k))
Symmetric == \A s \in Sizes, k \in 1..MaxPasses : 0 \in Candidates(s, k) /\ \A i \in Candidates(s, k) : -i \in Candidates(s, k)
Narrowing == \A s \in Sizes, k \in 1..MaxPasses : \A j \in 1..k :
               /\ M(s, k) <= M(s, j)
               /\ \A i \in 1..M(s, k) : Leq(Exponent(s, k, M(s, k)), Exponent(s, j, M(s, j)))
(* what is forced is a candidate, and each feature has its turn in each pass *)
Allowed == \A n \in DOMAIN steps : \A b \in AllBins : steps[n].forced[b] \subseteq Candidates(cfg[1].size, steps[n].pass)
Turns == \A n \in DOMAIN steps : n = (steps[n].pass - 1) * Features + steps[n].feature

SetSeq(S) == IF S = {} THEN <<>> ELSE <<CHOOSE x \in S : TRUE>>
Case == [rows |-> rows, cfg |-> cfg[1],
         grids |-> [k \in 1..cfg[1].passes |-> Grid(cfg[1].size, k)],
         steps |-> [n \in DOMAIN steps |->
                      [pass |-> steps[n].pass, feature |-> steps[n].feature,
                       forced |-> {[bin |-> b, to |-> SetSeq(steps[n].forced[b])] : b \in AllBins}]]]
Emit == pc = "done" => PrintT("@" \o ToJson(Case))
=============================================================================
