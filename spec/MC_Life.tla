------------------------------ MODULE MC_Life ------------------------------
EXTENDS Life
CONSTANTS H, I, P, T

Results == {"ok", "ErrorOpenFailed", "other"}

Next ==
  \/ \E h \in H, i \in I, p \in P : OpenWrite(h, i, p)
  \/ \E h \in H, i \in I, p \in P, b \in BOOLEAN, r \in Results : ~(\E j \in DOMAIN imgs : imgs[j].path = p /\ imgs[j].mode = "w" /\ imgs[j].open /\ OnDisk(p).st = "complete") /\ OpenRead(h, i, p, b, r)
  \/ \E h \in DOMAIN handles, g \in H : Copy(h, g)
  \/ \E h \in DOMAIN handles, t \in T : Fill(h, t)
  \/ \E h \in DOMAIN handles : Close(h) \/ Cancel(h) \/ Drop(h)
Spec == LInit /\ [][Next]_lvars
=============================================================================
