------------------------------- MODULE Pages -------------------------------
(* Checksums of pages (P05).

   A file is a row of pages, some of them damaged. Reading an item (the header and XML at open, a blob,
   a compressed vector) is a row of transfers, each over an interval of pages. Which pages of a transfer
   are verified depends on the policy the file was opened with:
     100      every page
     50, 25   at least that share of the pages, and always the last page of a transfer
     0        none                                                                              *)
EXTENDS Integers, Sequences, FiniteSets

Policies == {0, 25, 50, 100}

(* ---- what may be observed (used by Trace_Pages) ----
   An item has must: the pages that hold its stored bytes; may: all pages that reading it can touch;
   last: pages that are surely the last page of one of its transfers.                             *)
AnyError == "error"
Outcomes(item, damaged, crcOnly, pol) ==
   IF damaged \cap item.may = {} THEN {"ok"}
   ELSE IF pol = 100
   THEN IF damaged \cap item.must # {} THEN {"ErrorBadChecksum"} ELSE {"ok", "ErrorBadChecksum"}
   ELSE IF pol = 0
   THEN IF crcOnly THEN {"ok"} ELSE {"ok", "wrong", AnyError}
   ELSE IF damaged \cap item.last # {} THEN {"ErrorBadChecksum"}
   ELSE {"ok", "wrong", "ErrorBadChecksum", AnyError}

\* classes of results: ok with the right data, ok with other data, the checksum error, another error
Class(r, correct) == IF r = "ok" THEN (IF correct THEN "ok" ELSE "wrong")
                     ELSE IF r = "ErrorBadChecksum" THEN r ELSE AnyError

ItemOk(item, damaged, crcOnly, pol) == Class(item.r, item.correct) \in Outcomes(item, damaged, crcOnly, pol)

\* a file is refused at open with any error if pages of the header or the XML are damaged
OpenOk(o, damaged, crcOnly, pol) ==
   LET c == Outcomes(o, damaged, crcOnly, pol)
   IN IF "ErrorBadChecksum" \in c /\ "ok" \notin c THEN o.r # "ok"
      ELSE IF c = {"ok"} THEN o.r = "ok"
      ELSE TRUE

\* share: damaging each page of a transfer of k pages alone, the pages noticed
ShareOk(k, pol, noticed) == /\ k \in noticed
                            /\ noticed \subseteq 1..k
                            /\ Cardinality(noticed) >= (k * pol) \div 100
                            /\ pol = 100 => noticed = 1..k

(* ---- a reader that verifies in this way ---- *)
CONSTANTS N,        \* pages 0..N-1
          Items     \* Items[i] = sequence of transfers [a, b]
VARIABLES damaged, policy, done, failed, delivered

vars == <<damaged, policy, done, failed, delivered>>
Mod(pol) == 100 \div pol
Verified(p, t, pol) == IF pol = 100 THEN TRUE ELSE IF pol = 0 THEN FALSE ELSE p % Mod(pol) = 0 \/ p = t.b

Init == /\ damaged \in SUBSET (0..N - 1)
        /\ policy \in Policies
        /\ done = [i \in DOMAIN Items |-> 0]
        /\ failed = [i \in DOMAIN Items |-> FALSE]
        /\ delivered = [i \in DOMAIN Items |-> {}]

Transfer(i) ==
   /\ ~failed[i]
   /\ done[i] < Len(Items[i])
   /\ LET t == Items[i][done[i] + 1]
          ps == t.a..t.b
          bad == {p \in ps \cap damaged : Verified(p, t, policy)}
      IN IF bad = {} THEN /\ done' = [done EXCEPT ![i] = @ + 1]
                          /\ delivered' = [delivered EXCEPT ![i] = @ \cup ps]
                          /\ UNCHANGED failed
         ELSE /\ failed' = [failed EXCEPT ![i] = TRUE]
              /\ UNCHANGED <<done, delivered>>
   /\ UNCHANGED <<damaged, policy>>
Next == \E i \in DOMAIN Items : Transfer(i)
Spec == Init /\ [][Next]_vars

PagesOf(i) == UNION {Items[i][k].a..Items[i][k].b : k \in DOMAIN Items[i]}
LastOf(i) == {Items[i][k].b : k \in DOMAIN Items[i]}
Finished(i) == failed[i] \/ done[i] = Len(Items[i])
Result(i) == [must |-> PagesOf(i), may |-> PagesOf(i), last |-> LastOf(i),
              r |-> IF failed[i] THEN "ErrorBadChecksum" ELSE "ok", correct |-> delivered[i] \cap damaged = {}]

\* what this reader does is what may be observed
Refines == \A i \in DOMAIN Items : Finished(i) => ItemOk(Result(i), damaged, FALSE, policy)
NeverDelivered == policy = 100 => \A i \in DOMAIN Items : delivered[i] \cap damaged = {}
NoFalseAlarm == \A i \in DOMAIN Items : failed[i] => PagesOf(i) \cap damaged # {}
Share == \A i \in DOMAIN Items : \A k \in DOMAIN Items[i] :
            LET t == Items[i][k]
                n == t.b - t.a + 1
            IN policy > 0 => ShareOk(n, policy, {j \in 1..n : Verified(t.a + j - 1, t, policy)})
=============================================================================
