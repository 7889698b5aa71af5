------------------------------ MODULE MC_Tree ------------------------------
(* Exhaustive exploration of small forests: every order of constructions and
   insertions over two files, a few names and nodes of each kind.           *)
EXTENDS Tree

Pool == {"s1", "s2", "v1", "h1", "i1", "i2", "c1", "x1"}
CONSTANT MaxNodes   \* besides the roots

Kind(n) == CASE n \in {"s1", "s2"} -> NewNode("f", "Structure")
             [] n = "v1" -> NewNode("f", "Vector")
             [] n = "h1" -> [NewNode("f", "Vector") EXCEPT !.hetero = TRUE]
             [] n = "i1" -> [NewNode("f", "Integer") EXCEPT !.key = "a"]
             [] n = "i2" -> [NewNode("f", "Integer") EXCEPT !.key = "b"]
             [] n = "x1" -> [NewNode("g", "Integer") EXCEPT !.key = "a"]

Names == {"a", "b"}
Fld(s) == [s |-> s, k |-> IF s \in {"0", "1"} THEN "num" ELSE "id", p |-> ""]
Paths == {<<Fld(s)>> : s \in Names} \cup {<<Fld("a"), Fld(s)>> : s \in Names \cup {"0", "1"}}

MCInit == /\ files = [f \in {"f", "g"} |-> [open |-> TRUE, mode |-> "w", root |-> IF f = "f" THEN "rf" ELSE "rg", exts |-> << >>]]
          /\ nodes = [n \in {"rf", "rg"} |-> NewNode(IF n = "rf" THEN "f" ELSE "g", "Structure")]

Have == DOMAIN nodes
Room == Cardinality(Have) < MaxNodes + 2

Errs == {"ok", "ErrorSetTwice", "ErrorPathUndefined", "ErrorHomogeneousViolation", "ErrorAlreadyHasParent",
         "ErrorDifferentDestImageFile", "ErrorPathNameMalformed", "ErrorInternal", "ErrorImageFileNotOpen"}

(* The trees given to a compressed vector are used for nothing else, and do
   not contain vectors (the library documents this and does not check it) *)
Used(c) == VectorsOver(c) # {}
HasVector(c) == \E v \in Have : nodes[v].type = "CompressedVector" /\ (v = c \/ c \in Ancestors(v))
Above(n, c) == Used(RootOf(n)) /\ HasVector(c)

MCNext == \/ \E n \in Pool \ (Have \cup {"c1"}) : Room /\ New(Kind(n).file, n, Kind(n), "ok")
          \/ \E p, c \in Have : /\ Room /\ "c1" \notin Have
                                /\ ~IsFileRoot(p) /\ ~HasVector(p) /\ ~HasVector(c) /\ p # c /\ nodes[c].type = "Vector"
                                /\ NewVector("f", "c1", p, c, "ok")
          \/ \E n, c \in Have : /\ nodes[n].type = "Structure" /\ ~Used(c) /\ ~Above(n, c)
                                /\ \E fs \in Paths, abs \in BOOLEAN : Set(n, abs, fs, c, "ok")
          \/ \E n, c \in Have : /\ nodes[n].type = "Vector" /\ ~Used(c) /\ ~Above(n, c)
                                /\ AppendTo(n, c, "ok")

MCSpec == MCInit /\ [][MCNext]_trvars
=============================================================================
