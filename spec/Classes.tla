------------------------------- MODULE Classes -------------------------------
(* Binary targets per bin.  Rows arrive, then targets are raised from zero   *)
(* to one, one row at a time.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Bins, Weights, MinRows, MaxRows, MaxFlips, Random

VARIABLES rows, count, pc, chain
vars == <<rows, count, pc, chain>>

Draw(S) == RandomElement(IF Len(rows) >= 0 THEN S ELSE {})
Pick(S) == IF Random THEN {RandomElement(S)} ELSE S
AllRows == [bin : Bins, y : {0, 1}, w : Weights]
RandomRow == [bin |-> Draw(Bins), y |-> Draw({0, 1}), w |-> Draw(Weights)]

Init == rows = <<>> /\ count = [b \in Bins |-> <<0, 0>>] /\ pc = "collect" /\ chain = <<>>
AddRow ==
  /\ pc = "collect" /\ Len(rows) < MaxRows
  /\ \E r \in (IF Random THEN {RandomRow} ELSE AllRows) :
       /\ rows' = Append(rows, r)
       /\ count' = [count EXCEPT ![r.bin] = [@ EXCEPT ![r.y + 1] = @ + r.w]]
  /\ UNCHANGED <<pc, chain>>
Start == pc = "collect" /\ Len(rows) >= MinRows /\ pc' = "flip" /\ chain' = <<[flipped |-> 0, rows |-> rows, count |-> count]>> /\ UNCHANGED <<rows, count>>
Zeros == {i \in DOMAIN rows : rows[i].y = 0}
Flip ==
  /\ pc = "flip" /\ Zeros # {} /\ Len(chain) <= MaxFlips
  /\ \E i \in Pick(Zeros) :
       LET r == rows[i]
           c == [count EXCEPT ![r.bin] = <<@[1] - r.w, @[2] + r.w>>]
           rs == [rows EXCEPT ![i].y = 1]
       IN  /\ rows' = rs /\ count' = c
           /\ chain' = Append(chain, [flipped |-> i, rows |-> rs, count |-> c])
  /\ UNCHANGED pc
End == pc = "flip" /\ (Zeros = {} \/ Len(chain) > MaxFlips) /\ pc' = "done" /\ UNCHANGED <<rows, count, chain>>
Next == AddRow \/ Start \/ Flip \/ End
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
RECURSIVE Sum(_, _, _)
Sum(b, y, k) == IF k = 0 THEN 0 ELSE Sum(b, y, k - 1) + (IF rows[k].bin = b /\ rows[k].y = y THEN rows[k].w ELSE 0)
Counted == \A b \in Bins : count[b] = <<Sum(b, 0, Len(rows)), Sum(b, 1, Len(rows))>>
\* p/(p+n) in bin b of the later table is not below that of the earlier one
ShareUp(c, d, b) == d[b][2] * (c[b][1] + c[b][2]) >= c[b][2] * (d[b][1] + d[b][2])
Rising == \A k \in 2..Len(chain) :
  LET b == chain[k].rows[chain[k].flipped].bin
      c == chain[k - 1].count
      d == chain[k].count
  IN  /\ ShareUp(c, d, b) /\ d[b][2] > c[b][2]
      /\ \A o \in Bins \ {b} : d[o] = c[o]
Emit == pc = "done" => PrintT("@" \o ToJson([chain |-> [k \in DOMAIN chain |-> [flipped |-> chain[k].flipped, rows |-> chain[k].rows]]]))
=============================================================================
