----------------------------- MODULE MC_OpenVec -----------------------------
(* A reader that takes packet after packet, feeding the leaves that still need bytes, ends as Open says. *)
EXTENDS Open
CONSTANTS MaxPkts, Leaves, Need
MCNeed == <<3, 2>>
VARIABLES pkts, phase, at, got, result
vars == <<pkts, phase, at, got, result>>

P(t, lens, d) ==
   LET cnt == IF d = "cnt" THEN 1 ELSE Len(lens)
       real == IF d = "cnt" THEN SubSeq(lens, 1, 1) ELSE lens
       s == IF Len(real) = 1 THEN real[1] ELSE real[1] + real[2]
       need == 6 + 2 * cnt + s
       n == CASE t = 1 -> ((need + 3) \div 4) * 4 [] t = 0 -> 32 [] OTHER -> 4
   IN [t |-> t, len |-> IF d = "len" THEN n + 4 ELSE n, cnt |-> cnt, lens |-> real, sum |-> s, pad |-> d = "pad",
       entries |-> IF d = "cnt" THEN 0 ELSE 1, level |-> 0, res |-> FALSE, fits |-> d # "fits", clean |-> TRUE]
Sec == [at |-> "in", n |-> 5, size |-> 4096, lsize |-> 4080, id |-> 1, res |-> FALSE, len |-> 400, mod4 |-> 0, doff |-> 80, ioff |-> 0,
        where |-> "in", leaves |-> Leaves, need |-> Need, pkts |-> pkts]

Init == pkts = <<>> /\ phase = "build" /\ at = 0 /\ got = [i \in 1..Leaves |-> 0] /\ result = "none"
Add == /\ phase = "build" /\ Len(pkts) < MaxPkts
       /\ \E t \in {0, 1, 2, 7}, a \in 0..2, b \in 0..2, d \in {"none", "len", "cnt", "pad", "fits"} : pkts' = Append(pkts, P(t, <<a, b>>, d))
       /\ UNCHANGED <<phase, at, got, result>>
Go == phase = "build" /\ pkts # <<>> /\ phase' = "read" /\ UNCHANGED <<pkts, at, got, result>>
Hungry == {i \in 1..Leaves : got[i] < Need[i]}
End(r) == result' = r /\ phase' = "done" /\ UNCHANGED <<pkts, at, got>>
Bad(p) == CASE ~p.fits -> "ErrorInternal"
            [] p.t = 1 -> IF p.pad \/ p.len # ((6 + 2 * p.cnt + p.sum + 3) \div 4) * 4 THEN PktBad ELSE IF p.cnt < Leaves THEN "ErrorInternal" ELSE "none"
            [] p.t = 0 -> IF p.entries = 0 \/ p.pad THEN PktBad ELSE "none"
            [] p.t = 2 -> "none"
            [] OTHER -> "ErrorInternal"
Take == /\ phase = "read"
        /\ IF Hungry = {} /\ at > 0 THEN End("ok")
           ELSE IF at = Len(pkts) THEN End(PktBad)
           ELSE LET p == pkts[at + 1] IN
                IF at = 0 /\ p.fits /\ p.t \in {0, 2} THEN End(PktBad)
                ELSE IF Bad(p) # "none" THEN End(Bad(p))
                ELSE /\ at' = at + 1
                     /\ got' = [i \in 1..Leaves |-> IF p.t = 1 THEN got[i] + p.lens[i] ELSE got[i]]
                     /\ UNCHANGED <<pkts, phase, result>>
Next == Add \/ Go \/ Take
Spec == Init /\ [][Next]_vars
Agrees == phase = "done" => VectorOk(Sec, result, 5, TRUE)
=============================================================================
