------------------------------ MODULE MC_Open ------------------------------
(* A parser that works through a document from front to back, keeping only the open elements, refuses
   exactly the documents that break a rule of Open, with the error of a broken rule.              *)
EXTENDS Open
CONSTANTS MaxEls, Names, MTypes, Defects

VARIABLES els, phase, at, stack, result, cut
vars == <<els, phase, at, stack, result, cut>>

El(par, name, type, d) ==
   [par |-> par, name |-> name, type |-> type, tx |-> IF d = "text" THEN "text" ELSE "none", closed |-> FALSE, ns |-> d # "ns",
    off |-> IF d = "off" THEN "neg" ELSE "ok", len |-> "ok", cnt |-> IF d = "cnt" THEN "none" ELSE "ok",
    het |-> IF d = "het" THEN "bad" ELSE IF d = "open" THEN "1" ELSE "0", prec |-> "none",
    rng |-> IF d = "rng" THEN "bad" ELSE "ok", val |-> IF d = "val" THEN "out" ELSE "none", sig |-> ""]

Init == /\ \E n \in {"e57Root", "a"}, t \in {"Structure", "Vector"}, d \in {"none", "ns", "text"} : els = <<El(0, n, t, d)>>
        /\ phase = "build" /\ at = 0 /\ stack = <<>> /\ result = "none" /\ cut \in BOOLEAN

\* the next element goes into the last one or one of its ancestors
RECURSIVE Anc(_)
Anc(i) == IF i = 0 THEN {} ELSE {i} \cup Anc(els[i].par)
Add == /\ phase = "build" /\ Len(els) < MaxEls
       /\ \E p \in Anc(Len(els)), n \in Names, t \in MTypes, d \in Defects : els' = Append(els, El(p, n, t, d))
       /\ UNCHANGED <<phase, at, stack, result, cut>>
Go == phase = "build" /\ phase' = "parse" /\ UNCHANGED <<els, at, stack, result, cut>>

\* an open element: its index, the names of its children so far, its first child
Fail(e) == result' = e /\ phase' = "done" /\ UNCHANGED <<els, at, stack, cut>>
Top == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)
ParentOf(i) == IF i > Len(els) THEN -1 ELSE els[i].par
Enter ==
   LET i == at + 1
       e == els[i]
       bad == \/ e.type \notin Types
              \/ e.type \in {"Blob", "CompressedVector"} /\ e.off # "ok"
              \/ e.type = "CompressedVector" /\ e.cnt # "ok"
              \/ e.type = "Vector" /\ e.het = "bad"
              \/ stack = <<>> /\ (e.type # "Structure" \/ e.name # "e57Root" \/ ~e.ns)
              \/ e.tx = "text" /\ e.type \in {"Structure", "Vector", "CompressedVector", "Blob"}
   IN IF bad THEN Fail(BadXml)
      ELSE /\ stack' = Append(stack, [i |-> i, names |-> <<>>, first |-> 0])
           /\ at' = i
           /\ UNCHANGED <<els, phase, result, cut>>
Leave ==
   LET i == Top.i
       e == els[i]
       up == IF Len(stack) > 1 THEN stack[Len(stack) - 1] ELSE [i |-> 0]
       p == els[up.i]
       had(n) == \E k \in 1..Len(up.names) : up.names[k] = n
       has(n) == \E k \in 1..Len(Top.names) : Top.names[k] = n
       close == [els EXCEPT ![i].closed = TRUE]
   IN IF e.type \in Numbers /\ e.rng = "bad" THEN Fail(BadXml)
      ELSE IF e.type \in Numbers /\ e.val = "out" THEN Fail("ErrorValueOutOfBounds")
      ELSE IF e.type = "CompressedVector" /\ ~has("prototype") THEN Fail(BadXml)
      ELSE IF up.i = 0 THEN /\ phase' = "done" /\ result' = "ok" /\ els' = close /\ UNCHANGED <<at, stack, cut>>
      ELSE IF p.type \notin Containers THEN Fail(BadXml)
      ELSE IF p.type = "Structure" /\ had(e.name) THEN Fail("ErrorSetTwice")
      ELSE IF p.type = "Vector" /\ p.het # "1" /\ up.first # 0 /\ ~Same(close, up.first, i) THEN Fail("ErrorHomogeneousViolation")
      ELSE IF p.type = "CompressedVector" /\ e.name \notin {"prototype", "codecs"} THEN Fail(BadXml)
      ELSE IF p.type = "CompressedVector" /\ e.name = "codecs" /\ (e.type # "Vector" \/ e.het # "1") THEN Fail(BadXml)
      ELSE IF p.type = "CompressedVector" /\ had(e.name) THEN Fail("ErrorSetTwice")
      ELSE /\ els' = close
           /\ stack' = [Pop EXCEPT ![Len(Pop)].names = Append(@, e.name), ![Len(Pop)].first = IF @ = 0 THEN i ELSE @]
           /\ UNCHANGED <<phase, at, result, cut>>
\* the text may stop before the root ends
Stop == cut /\ stack # <<>> /\ Fail("ErrorXMLParser")
Step == /\ phase = "parse"
        /\ \/ IF stack = <<>> \/ ParentOf(at + 1) = Top.i THEN Enter ELSE Leave
           \/ Stop
Next == Add \/ Go \/ Step
Spec == Init /\ [][Next]_vars

\* what the instrument reports: the elements begun when the text stops; all are closed if it does not
AllClosed == [i \in 1..Len(els) |-> [els[i] EXCEPT !.closed = TRUE]]
Seen == IF result = "ErrorXMLParser" THEN [wf |-> FALSE, loose |-> FALSE, els |-> SubSeq(els, 1, at)] ELSE [wf |-> TRUE, loose |-> FALSE, els |-> AllClosed]
Agrees == phase = "done" => IF result = "ok" THEN XmlErrs(Seen) = {} ELSE result \in XmlErrs(Seen)
=============================================================================
