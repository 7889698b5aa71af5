------------------------------ MODULE Packets ------------------------------
(* How a reader puts records together from packets (P04).

   Every field has its own bytestream; the encoder has cut the streams into data packets at arbitrary
   places, and other packets may lie in between. A field f uses U[f] units of its stream per record.
   The reader keeps a position in the packets per field and feeds the earliest packet that a field
   with room in its buffer still needs. The property is that nothing of this shows: each call delivers
   the same number of records of every field, as many as fit or are left (the Read of Transfer). *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Fields, U, N, K, Caps

VARIABLES cut,    \* cut[f][p]: units of field f in packet p
          kind,   \* kind[p]: "data" or "other"
          chan,   \* per field: [pkt, off, queue, done, fin]
          out,    \* records delivered to each buffer in the current call
          cap,    \* capacity in the current call, 0: no call in progress
          pos     \* records delivered by completed calls
vars == <<cut, kind, chan, out, cap, pos>>

RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN 0 ELSE Head(q) + Total(Tail(q))

\* all ways to cut n units into K packets, nothing in packets that are not data
Cuts(n, kd) == {q \in [1..K -> 0..n] : Total([i \in 1..K |-> q[i]]) = n /\ \A i \in 1..K : kd[i] = "other" => q[i] = 0}

Kinds == {kd \in [1..K -> {"data", "other"}] : kd[1] = "data"}

Init == /\ kind \in Kinds
        /\ cut \in [Fields -> UNION {Cuts(N * U[f], kind) : f \in Fields}]
        /\ \A f \in Fields : cut[f] \in Cuts(N * U[f], kind)
        /\ chan = [f \in Fields |-> [pkt |-> 1, off |-> 0, queue |-> 0, done |-> 0, fin |-> FALSE]]
        /\ out = [f \in Fields |-> 0]
        /\ cap = 0
        /\ pos = 0

Min2(a, b) == IF a <= b THEN a ELSE b

\* what a decoder makes of its queued units: records while there is room
Drain(c, f, o) == LET n == Min2(c.queue \div U[f], Min2(cap' - o, N - c.done))
                  IN n

StartRead(c) ==
   /\ cap = 0
   /\ cap' = c
   /\ LET n == [f \in Fields |-> Drain(chan[f], f, 0)]
      IN /\ out' = n
         /\ chan' = [f \in Fields |-> [chan[f] EXCEPT !.queue = @ - n[f] * U[f], !.done = @ + n[f]]]
   /\ UNCHANGED <<cut, kind, pos>>

Blocked(f) == out[f] >= cap \/ chan[f].done >= N
Hungry == {f \in Fields : ~Blocked(f) /\ ~chan[f].fin}

NextData(p) == LET S == {q \in p + 1..K : kind[q] = "data"}
               IN IF S = {} THEN 0 ELSE CHOOSE q \in S : \A r \in S : q <= r

Feed ==
   /\ cap > 0
   /\ Hungry # {}
   /\ LET p == CHOOSE p \in {chan[f].pkt : f \in Hungry} : \A g \in Hungry : p <= chan[g].pkt
          fed == {f \in Hungry : chan[f].pkt = p}
          \* a decoder takes what is in the packet, whole records first; left-over units are queued
          new == [f \in Fields |->
                    IF f \notin fed THEN [c |-> chan[f], o |-> out[f]]
                    ELSE LET avail == chan[f].queue + cut[f][p] - chan[f].off
                             n == Min2(avail \div U[f], Min2(cap - out[f], N - chan[f].done))
                             all == out[f] + n < cap /\ chan[f].done + n < N   \* room left: everything is taken
                             rest == avail - n * U[f]
                             eaten == all \/ rest < U[f] \/ chan[f].done + n >= N
                             nx == NextData(p)
                         IN [c |-> IF eaten
                                   THEN [pkt |-> IF nx = 0 THEN p ELSE nx, off |-> IF nx = 0 THEN cut[f][p] ELSE 0,
                                         queue |-> rest, done |-> chan[f].done + n, fin |-> nx = 0]
                                   ELSE [pkt |-> p, off |-> cut[f][p] - rest, queue |-> 0, done |-> chan[f].done + n, fin |-> FALSE],
                             o |-> out[f] + n]]
      IN /\ chan' = [f \in Fields |-> new[f].c]
         /\ out' = [f \in Fields |-> new[f].o]
   /\ UNCHANGED <<cut, kind, cap, pos>>

EndRead == /\ cap > 0
           /\ Hungry = {}
           /\ cap' = 0
           /\ pos' = pos + (LET f == CHOOSE f \in Fields : TRUE IN out[f])
           /\ out' = [f \in Fields |-> 0]
           /\ UNCHANGED <<cut, kind, chan>>

Next == (\E c \in Caps : StartRead(c)) \/ Feed \/ EndRead
Spec == Init /\ [][Next]_vars /\ WF_vars(Feed) /\ WF_vars(EndRead)

\* what a call that is about to return delivers
Delivers == (cap > 0 /\ Hungry = {}) =>
               /\ \A f, g \in Fields : out[f] = out[g]
               /\ \A f \in Fields : out[f] = Min2(cap, N - pos)
\* nothing is delivered twice or lost
Consistent == \A f \in Fields : chan[f].done = pos + out[f]
Bounded == \A f \in Fields : out[f] <= cap /\ chan[f].queue >= 0 /\ chan[f].off >= 0
\* every call returns
Returns == [](cap > 0 => <>(cap = 0))
=============================================================================
