-------------------------------- MODULE Tree --------------------------------
(* Element trees of ImageFiles (properties P08, P09 and P10).

   The state is a forest of nodes per file.  Every operation has a set of
   violated rules; the operation succeeds exactly when that set is empty, and
   otherwise fails with one of the errors in the set and changes nothing.

   Path names are given as a flag (absolute or not) and a sequence of fields,
   each with its class; how text is divided into fields and classes is the
   subject of module Names.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES files,    \* files[f] = [open, mode, root, exts]
          nodes     \* nodes[n] = [file, type, parent, name, kids, hetero, key, at, proto, codecs]

trvars == <<files, nodes>>

None == "-"
Containers == {"Structure", "Vector"}

EmptyFun == [x \in {} |-> x]
TrInit == files = EmptyFun /\ nodes = EmptyFun

NewNode(f, t) == [file |-> f, type |-> t, parent |-> None, name |-> "", kids |-> << >>, hetero |-> FALSE,
                  key |-> "", at |-> <<t>>, proto |-> None, codecs |-> None, recs |-> 0]

-----------------------------------------------------------------------------
(* Structure of the forest *)
RECURSIVE RootOf(_)
RootOf(n) == IF nodes[n].parent = None THEN n ELSE RootOf(nodes[n].parent)

RECURSIVE Ancestors(_)
Ancestors(n) == IF nodes[n].parent = None THEN {} ELSE {nodes[n].parent} \cup Ancestors(nodes[n].parent)

IsFileRoot(n) == \E f \in DOMAIN files : files[f].root = n

VectorsOver(r) == {v \in DOMAIN nodes : nodes[v].type = "CompressedVector" /\ r \in {nodes[v].proto, nodes[v].codecs}}

RECURSIVE Attached(_)
Attached(n) == LET r == RootOf(n) IN IsFileRoot(r) \/ \E v \in VectorsOver(r) : Attached(v)

RECURSIVE PathName(_)
PathName(n) == LET p == nodes[n].parent IN
               IF p = None THEN "/"
               ELSE IF nodes[p].parent = None THEN "/" \o nodes[n].name
               ELSE PathName(p) \o "/" \o nodes[n].name

KidNamed(m, s) == LET ks == nodes[m].kids IN {ks[i] : i \in {j \in DOMAIN ks : nodes[ks[j]].name = s}}

(* Identical in every visible characteristic except stored values *)
RECURSIVE SameType(_, _)
SameType(a, b) ==
  LET x == nodes[a] y == nodes[b] IN
  /\ x.type = y.type
  /\ CASE x.type = "Structure" -> /\ Len(x.kids) = Len(y.kids)
                                  /\ \A i \in DOMAIN x.kids :
                                       \E j \in DOMAIN y.kids : /\ nodes[x.kids[i]].name = nodes[y.kids[j]].name
                                                                /\ SameType(x.kids[i], y.kids[j])
       [] x.type = "Vector" -> /\ x.hetero = y.hetero
                               /\ Len(x.kids) = Len(y.kids)
                               /\ \A i \in DOMAIN x.kids : SameType(x.kids[i], y.kids[i])
       [] x.type = "CompressedVector" -> /\ x.recs = y.recs
                                         /\ SameType(x.proto, y.proto)
                                         /\ SameType(x.codecs, y.codecs)
       [] OTHER -> x.key = y.key

(* The children of node m must not change any more *)
Frozen(m) == \/ \E p \in Ancestors(m) : nodes[p].type = "Vector" /\ ~nodes[p].hetero /\ Len(nodes[p].kids) > 1
             \/ Attached(m) /\ ~IsFileRoot(RootOf(m))

-----------------------------------------------------------------------------
(* Path names *)
IsOpen(f) == files[f].open
Registered(f, p) == \E i \in DOMAIN files[f].exts : files[f].exts[i][1] = p

ParseErrors(f, abs, fs) ==
  (IF ~abs /\ fs = << >> THEN {"ErrorPathNameEmpty"} ELSE {})
  \cup {"ErrorPathNameMalformed" : i \in {j \in DOMAIN fs : fs[j].k = "bad"}}
  \cup {"ErrorPathNameExtensionNotRegistered" : i \in {j \in DOMAIN fs : fs[j].k = "ext" /\ ~Registered(f, fs[j].p)}}
  \cup {"ErrorPathNameEmpty" : i \in {j \in DOMAIN fs : fs[j].k = "empty" /\ j < Len(fs)}}

TrailingSlash(fs) == fs # << >> /\ fs[Len(fs)].k = "empty"

Start(n, abs) == IF abs THEN RootOf(n) ELSE n

(* The node a path leads to, or None *)
RECURSIVE Walk(_, _, _)
Walk(m, fs, i) == IF i > Len(fs) THEN m
                  ELSE IF nodes[m].type \notin Containers THEN None
                  ELSE LET k == KidNamed(m, fs[i].s) IN
                       IF k = {} THEN None ELSE Walk(CHOOSE x \in k : TRUE, fs, i + 1)

Find(n, abs, fs) == IF ~abs /\ fs = << >> THEN None ELSE Walk(Start(n, abs), fs, 1)

-----------------------------------------------------------------------------
(* Rules *)
ClosedErrors(f) == IF IsOpen(f) THEN {} ELSE {"ErrorImageFileNotOpen"}
ReadOnlyErrors(f) == IF IsOpen(f) /\ files[f].mode = "r" THEN {"ErrorFileReadOnly"} ELSE {}

(* What is wrong with giving node c a new parent in file f *)
ChildErrors(f, c) ==
  (IF nodes[c].file # f THEN {"ErrorDifferentDestImageFile"} ELSE {})
  \cup (IF nodes[c].parent # None \/ Attached(c) THEN {"ErrorAlreadyHasParent"} ELSE {})
  \cup (IF nodes[c].file # f /\ ~IsOpen(nodes[c].file) THEN {"ErrorImageFileNotOpen"} ELSE {})

(* What is wrong with c as the next child of m *)
AddErrors(m, c) ==
  (IF Frozen(m) THEN {"ErrorHomogeneousViolation"} ELSE {})
  \cup (IF c = RootOf(m) THEN {"ErrorAlreadyHasParent"} ELSE {})
  \cup (IF nodes[m].type = "Vector" /\ ~nodes[m].hetero /\ \E i \in DOMAIN nodes[m].kids : ~SameType(nodes[m].kids[i], c)
        THEN {"ErrorHomogeneousViolation"} ELSE {})

NameErrors(m, field) ==
  IF field.k = "empty" THEN {"ErrorPathNameEmpty"}
  ELSE IF nodes[m].type = "Vector" /\ field.s # ToString(Len(nodes[m].kids)) THEN {"ErrorPathNameMalformed"}
  ELSE IF nodes[m].type = "Structure" /\ field.k = "num" THEN {"ErrorPathNameMalformed"}
  ELSE {}

SetErrors(n, abs, fs, c) ==
  LET f == nodes[n].file
      parse == ParseErrors(f, abs, fs)
      upto == IF fs = << >> THEN None ELSE Walk(Start(n, abs), SubSeq(fs, 1, Len(fs) - 1), 1)
      place == IF fs = << >> THEN {"ErrorSetTwice"}
               ELSE IF upto = None THEN {"ErrorPathUndefined", "ErrorHomogeneousViolation", "ErrorInternal"}
               ELSE IF nodes[upto].type \notin Containers THEN {"ErrorPathUndefined", "ErrorInternal"}
               ELSE IF KidNamed(upto, fs[Len(fs)].s) # {} THEN {"ErrorSetTwice"}
               ELSE NameErrors(upto, fs[Len(fs)]) \cup AddErrors(upto, c)
  IN IF ~IsOpen(f) THEN ClosedErrors(f)
     ELSE ReadOnlyErrors(f) \cup parse \cup (IF parse = {} THEN place ELSE {}) \cup ChildErrors(f, c)

AppendErrors(n, c) ==
  LET f == nodes[n].file IN
  IF ~IsOpen(f) THEN ClosedErrors(f)
  ELSE ReadOnlyErrors(f) \cup AddErrors(n, c) \cup ChildErrors(f, c)

Outcome(errs, r) == IF errs = {} THEN r = "ok" ELSE r \in errs

-----------------------------------------------------------------------------
(* Actions: r is the observed result *)
Open(f, mode, rootId) == /\ f \notin DOMAIN files
                         /\ files' = files @@ (f :> [open |-> TRUE, mode |-> mode, root |-> rootId, exts |-> << >>])
                         /\ nodes' = nodes @@ (rootId :> NewNode(f, "Structure"))

Close(f) == /\ files' = [files EXCEPT ![f].open = FALSE]
            /\ UNCHANGED nodes

(* Extensions: only what names in paths need; see Names for the whole story *)
AddExtension(f, p, u) == /\ ~Registered(f, p)
                         /\ files' = [files EXCEPT ![f].exts = Append(@, <<p, u>>)]
                         /\ UNCHANGED nodes

New(f, n, rec, r) == LET errs == ClosedErrors(f) IN
                     /\ Outcome(errs, r)
                     /\ IF errs = {} THEN nodes' = (n :> rec) @@ nodes ELSE UNCHANGED nodes
                     /\ UNCHANGED files

(* A compressed vector over a prototype and codecs *)
NewVectorErrors(f, p, c) ==
  ClosedErrors(f)
  \cup (IF nodes[p].parent # None \/ nodes[c].parent # None THEN {"ErrorAlreadyHasParent"} ELSE {})
  \cup (IF nodes[p].file # f \/ nodes[c].file # f THEN {"ErrorDifferentDestImageFile"} ELSE {})
  \cup (IF ~IsOpen(nodes[p].file) \/ ~IsOpen(nodes[c].file) THEN {"ErrorImageFileNotOpen"} ELSE {})

NewVector(f, n, p, c, r) ==
  LET errs == NewVectorErrors(f, p, c) IN
  /\ Outcome(errs, r)
  /\ IF errs = {} THEN nodes' = (n :> [NewNode(f, "CompressedVector") EXCEPT !.proto = p, !.codecs = c]) @@ nodes
     ELSE UNCHANGED nodes
  /\ UNCHANGED files

Link(m, c, s) == nodes' = [nodes EXCEPT ![m].kids = Append(@, c), ![c].parent = m, ![c].name = s]

Set(n, abs, fs, c, r) ==
  LET errs == SetErrors(n, abs, fs, c) IN
  /\ Outcome(errs, r)
  /\ IF errs = {} THEN Link(Walk(Start(n, abs), SubSeq(fs, 1, Len(fs) - 1), 1), c, fs[Len(fs)].s) ELSE UNCHANGED nodes
  /\ UNCHANGED files

AppendTo(n, c, r) ==
  LET errs == AppendErrors(n, c) IN
  /\ Outcome(errs, r)
  /\ IF errs = {} THEN Link(n, c, ToString(Len(nodes[n].kids))) ELSE UNCHANGED nodes
  /\ UNCHANGED files

(* Queries: v is the observed value *)
Get(n, abs, fs, r, v) ==
  LET f == nodes[n].file
      parse == ParseErrors(f, abs, fs)
      found == Find(n, abs, fs)
      errs == IF ~IsOpen(f) THEN ClosedErrors(f)
              ELSE parse \cup (IF found = None THEN {"ErrorPathUndefined"} ELSE {})
                         \cup (IF TrailingSlash(fs) THEN {"ErrorPathNameEmpty"} ELSE {})
  IN /\ Outcome(errs, r)
     /\ errs = {} => v = found
     /\ UNCHANGED trvars

IsDefined(n, abs, fs, r, v) ==
  LET f == nodes[n].file
      parse == ParseErrors(f, abs, fs)
      hard == (parse \ {"ErrorPathNameExtensionNotRegistered"}) \cup (IF TrailingSlash(fs) THEN {"ErrorPathNameEmpty"} ELSE {})
  IN /\ IF ~IsOpen(f) THEN r \in ClosedErrors(f)
        ELSE IF parse = {} /\ hard = {} THEN r = "ok" /\ v = (Find(n, abs, fs) # None)
        ELSE \/ r \in hard
             \/ (hard = {} \/ "ErrorPathNameExtensionNotRegistered" \in parse \/ TrailingSlash(fs)) /\ r = "ok" /\ v = FALSE
     /\ UNCHANGED trvars

GetIndex(n, i, r, v) ==
  LET errs == IF ~IsOpen(nodes[n].file) THEN ClosedErrors(nodes[n].file)
              ELSE IF i < 0 \/ i >= Len(nodes[n].kids) THEN {"ErrorChildIndexOutOfBounds"} ELSE {}
  IN /\ Outcome(errs, r)
     /\ errs = {} => v = nodes[n].kids[i + 1]
     /\ UNCHANGED trvars

Downcast(n, to, r) == /\ r = IF nodes[n].type = to THEN "ok" ELSE "ErrorBadNodeDowncast"
                      /\ UNCHANGED trvars

(* Everything the API reports about one node *)
YesNo(b) == IF b THEN "yes" ELSE "no"
Describes(x) ==
  LET n == x.n  y == nodes[n] IN
  /\ x.t = y.type
  /\ x.file = y.file
  /\ IF IsOpen(y.file)
     THEN /\ x.root = YesNo(y.parent = None)
          /\ x.att = YesNo(Attached(n))
          /\ x.path = PathName(n)
          /\ x.name = y.name
          /\ x.parent = IF y.parent = None THEN n ELSE y.parent
          /\ x.count = CASE y.type \in Containers -> ToString(Len(y.kids))
                         [] y.type = "CompressedVector" -> ToString(y.recs)
                         [] OTHER -> "-1"
          /\ x.kids = CASE y.type \in Containers -> y.kids
                        [] y.type = "CompressedVector" -> <<y.proto, y.codecs>>
                        [] OTHER -> << >>
     ELSE LET c == "ErrorImageFileNotOpen" IN
          /\ x.root = c /\ x.att = c /\ x.path = c /\ x.name = c /\ x.parent = c
          /\ x.count = IF y.type \in Containers \cup {"CompressedVector"} THEN c ELSE "-1"

(* A compressed vector is attached together with its prototype and codecs, unless it shares them with another *)
Together == \A v \in DOMAIN nodes : nodes[v].type = "CompressedVector" =>
              \A p \in {nodes[v].proto, nodes[v].codecs} : nodes[p].parent = None /\ Attached(p) = Attached(v)

(* The consistency checks of the library itself find nothing wrong *)
Invariants(xs) == Together => \A i \in DOMAIN xs : xs[i].inv = "ok"

Forest(xs) == /\ {xs[i].n : i \in DOMAIN xs} = DOMAIN nodes
              /\ \A i \in DOMAIN xs : Describes(xs[i])
              /\ Invariants(xs)
              /\ UNCHANGED trvars

(* Attributes of a scalar node, as canonical text *)
Attributes(n, at, r) == /\ IF IsOpen(nodes[n].file) THEN r = "ok" /\ at = nodes[n].at ELSE r = "ErrorImageFileNotOpen"
                        /\ UNCHANGED trvars

-----------------------------------------------------------------------------
(* What has to hold in every reachable state *)
Consistent ==
  /\ \A n \in DOMAIN nodes : \A i \in DOMAIN nodes[n].kids :
       LET k == nodes[n].kids[i] IN nodes[k].parent = n /\ nodes[k].file = nodes[n].file
  /\ \A n \in DOMAIN nodes : nodes[n].parent # None =>
       Cardinality({i \in DOMAIN nodes[nodes[n].parent].kids : nodes[nodes[n].parent].kids[i] = n}) = 1
  /\ \A n \in DOMAIN nodes : \A i, j \in DOMAIN nodes[n].kids :
       i # j => nodes[nodes[n].kids[i]].name # nodes[nodes[n].kids[j]].name
  /\ \A n \in DOMAIN nodes : n \notin Ancestors(n)
  /\ \A n \in DOMAIN nodes : nodes[n].type = "Vector" =>
       \A i \in DOMAIN nodes[n].kids : nodes[nodes[n].kids[i]].name = ToString(i - 1)

Homogeneous ==
  \A n \in DOMAIN nodes : (nodes[n].type = "Vector" /\ ~nodes[n].hetero) =>
       \A i, j \in DOMAIN nodes[n].kids : SameType(nodes[n].kids[i], nodes[n].kids[j])

PathsAgree ==
  \A n \in DOMAIN nodes : nodes[n].parent # None =>
     /\ Find(nodes[n].parent, FALSE, <<[s |-> nodes[n].name, k |-> "id", p |-> ""]>>) = n

(* Attached nodes stay attached; the type of an attached prototype never changes *)
AttachedSet == {n \in DOMAIN nodes : Attached(n)}
ProtoKids == [v \in {x \in DOMAIN nodes : nodes[x].type = "CompressedVector" /\ Attached(x)} |-> nodes[nodes[v].proto].kids]
Stays == [][ AttachedSet \subseteq AttachedSet'
             /\ \A v \in DOMAIN ProtoKids : v \in DOMAIN ProtoKids' /\ ProtoKids'[v] = ProtoKids[v] ]_trvars
=============================================================================
