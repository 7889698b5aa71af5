----------------------------- MODULE Trace_Tree -----------------------------
(* Is a recorded execution a behaviour of Tree? *)
EXTENDS Tree, Json, IOUtils

VARIABLE l

Trace == ndJsonDeserialize(IOEnv.TRACE)

Ok(e) == e.r = "ok"

(* at is a sequence of strings: type, then the attributes in a fixed order;
   for containers the number of children is appended when it is compared    *)
WithCount(n) == LET y == nodes[n] IN
                IF y.type \in Containers THEN Append(y.at, ToString(Len(y.kids)))
                ELSE IF y.type = "CompressedVector" THEN Append(y.at, ToString(y.recs)) ELSE y.at

RECURSIVE Expected(_, _)
RECURSIVE ExpectedKids(_, _, _)
Expected(n, rel) ==
  LET y == nodes[n] IN
  <<[p |-> rel, name |-> y.name, at |-> WithCount(n)]>> \o
  CASE y.type \in Containers -> ExpectedKids(n, rel, 1)
    [] y.type = "CompressedVector" -> Expected(y.proto, rel \o "/%40prototype") \o Expected(y.codecs, rel \o "/%40codecs")
    [] OTHER -> << >>
ExpectedKids(n, rel, i) == IF i > Len(nodes[n].kids) THEN << >>
                           ELSE LET k == nodes[n].kids[i] IN
                                Expected(k, rel \o "/" \o nodes[k].name) \o ExpectedKids(n, rel, i + 1)

(* A file written with handle e.f and opened again holds the tree of e.f *)
SavedTree(f, t) == /\ ~IsOpen(f)
                   /\ t = Expected(files[f].root, "")
                   /\ UNCHANGED trvars
LiveTree(n, t) == /\ t = Expected(n, "")
                  /\ UNCHANGED trvars
(* the default namespace of the format is declared in the file as well *)
Default(x) == x[1] = "" /\ x[2] = "http://www.astm.org/COMMIT/E57/2010-e57-v1.0"
SavedExtensions(f, x) == /\ SelectSeq(x, LAMBDA y : ~Default(y)) = files[f].exts
                         /\ Len(x) <= Len(files[f].exts) + 1
                         /\ UNCHANGED trvars

WriteRecords(n, k) == /\ nodes' = [nodes EXCEPT ![n].recs = k]
                      /\ UNCHANGED files

Rec(e) == [NewNode(e.f, e.type) EXCEPT !.hetero = e.hetero, !.key = e.key, !.at = e.at]

Step(e) == \/ e.op = "reset" /\ files' = EmptyFun /\ nodes' = EmptyFun
           \/ e.op = "setup" /\ Ok(e) /\ UNCHANGED trvars
           \/ e.op = "open" /\ Ok(e) /\ Open(e.f, e.mode, e.root)
           \/ e.op = "closeFile" /\ Ok(e) /\ Close(e.f)
           \/ e.op = "ext" /\ Ok(e) /\ AddExtension(e.f, e.prefix, e.uri)
           \/ e.op = "new" /\ New(e.f, e.n, Rec(e), e.r)
           \/ e.op = "newcv" /\ NewVector(e.f, e.n, e.proto, e.codecs, e.r)
           \/ e.op = "set" /\ Set(e.n, e.abs, e.fs, e.c, e.r)
           \/ e.op = "append" /\ AppendTo(e.n, e.c, e.r)
           \/ e.op = "get" /\ Get(e.n, e.abs, e.fs, e.r, IF Ok(e) THEN e.v ELSE None)
           \/ e.op = "isDefined" /\ IsDefined(e.n, e.abs, e.fs, e.r, IF Ok(e) THEN e.v ELSE FALSE)
           \/ e.op = "getIndex" /\ GetIndex(e.n, e.i, e.r, IF Ok(e) THEN e.v ELSE None)
           \/ e.op = "downcast" /\ Downcast(e.n, e.to, e.r)
           \/ e.op = "forest" /\ Ok(e) /\ Forest(e.nodes)
           \/ e.op = "attrs" /\ Attributes(e.n, IF Ok(e) THEN e.at ELSE << >>, e.r)
           \/ e.op = "records" /\ Ok(e) /\ WriteRecords(e.n, e.k)
           \/ e.op = "saved" /\ Ok(e) /\ SavedTree(e.f, e.tree)
           \/ e.op = "live" /\ Ok(e) /\ LiveTree(e.n, e.tree)
           \/ e.op = "savedExts" /\ Ok(e) /\ SavedExtensions(e.f, e.exts)

TraceInit == TrInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<trvars, l>>

TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED", d>>, FALSE)
=============================================================================
