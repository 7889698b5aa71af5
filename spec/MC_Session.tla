----------------------------- MODULE MC_Session -----------------------------
EXTENDS Session, TLC

CONSTANTS MaxRecs, Vs, Hs

Leaves == ("a" :> "a" @@ "/a" :> "a" @@ "b" :> "b" @@ "st" :> "inner")
Kinds == ("a" :> "num" @@ "b" :> "str")
B(p, c, g) == [p |-> p, cap |-> c, sig |-> g, rep |-> IF p = "b" /\ g = 0 THEN "str" ELSE "num"]
BufLists == { << >>, <<B("a", 1, 0), B("b", 1, 0)>>, <<B("a", 2, 0), B("b", 2, 0)>>, <<B("a", 1, 0)>>,
              <<B("a", 1, 0), B("/a", 1, 0), B("b", 1, 0)>>, <<B("a", 1, 1), B("b", 1, 0)>>,
              <<B("a", 1, 0), B("b", 2, 0)>>, <<B("a", 1, 0), B("st", 1, 0)>>, <<B("zz", 1, 0)>>,
              <<B("a", 1, 0), B("b", 1, 1)>> }



Pick(errs) == IF errs = {} THEN {"ok"} ELSE errs

Runs(h, n, k) == [i \in 1..k |-> IF n = 0 THEN << >> ELSE << <<sess[hs[h]].n, n>> >>]
Free(h) == h \notin DOMAIN hs
Rec(h) == sess[hs[h]]
Is(h, k) == h \in DOMAIN hs /\ sess[hs[h]].kind = k /\ ~sess[hs[h]].broken
Fits(h, b) == Unfit(sess[hs[h]].v, b)

Init == SInit
Acts ==
    \/ "w" \notin DOMAIN files /\ OpenWrite("w")
    \/ "w" \in DOMAIN files /\ IsOpen("w") /\ \E v \in Vs : v \notin DOMAIN vecs /\ NewVec(v, "w", v, Leaves, Kinds)
    \/ \E v \in DOMAIN vecs : IsOpen(vecs[v].f) /\ ~vecs[v].att /\ Attach(v)
    \/ "w" \in DOMAIN files /\ CloseFile("w", "p")
    \/ "r" \notin DOMAIN files /\ OpenRead("r", "p")
    \/ "r" \in DOMAIN files /\ CancelFile("r")
    \/ "r" \in DOMAIN files /\ IsOpen("r") /\ \E v \in Vs : "r" \o v \notin DOMAIN vecs /\ GetVec("r" \o v, "r", "p", v)
    \/ \E h \in Hs, v \in DOMAIN vecs, k \in {"w", "r"}, b \in BufLists :
           Free(h) /\ h \notin DOMAIN sess /\ \E r \in Pick(NewErrors(k, v, b)) : New(k, h, h, v, b, r)
    \/ \E h, g \in Hs : h \in DOMAIN hs /\ Free(g) /\ CopyHandle(h, g)
    \/ \E h \in Hs : Is(h, "w") /\ \E n \in 0..2 : Rec(h).n + n <= MaxRecs /\ \E r \in Pick(UseErrors(hs[h]) \cup When(n > Rec(h).bufs[1].cap, "ErrorBadAPIArgument")) \cup Fits(h, Rec(h).bufs) : Write(h, n, r)
    \/ \E h \in Hs : Is(h, "w") /\ \E n \in 0..2, b \in BufLists :
           Rec(h).n + n <= MaxRecs /\ \E r \in Pick(UseErrors(hs[h]) \cup SwapErrors(hs[h], b) \cup When(b # << >> /\ n > b[1].cap, "ErrorBadAPIArgument")) \cup Fits(h, b) : WriteWith(h, b, n, r)
    \/ \E h \in Hs : Is(h, "r") /\ \E n \in 0..MaxRecs, r \in Pick(UseErrors(hs[h])) \cup Fits(h, Rec(h).bufs) : Read(h, r, n, Runs(h, n, Len(Rec(h).bufs)), TRUE)
    \/ \E h \in Hs : Is(h, "r") /\ \E n \in 0..MaxRecs, b \in BufLists : \E r \in Pick(UseErrors(hs[h]) \cup SwapErrors(hs[h], b)) \cup Fits(h, b) : ReadWith(h, b, r, n, Runs(h, n, Len(b)), TRUE)
    \/ \E h \in DOMAIN hs, r \in {"ok", "ErrorImageFileNotOpen"} : Close(h, r)
    \/ \E h \in DOMAIN hs : Drop(h)
    \/ \E p \in DOMAIN saved : "r" \notin DOMAIN files /\ \E q \in DOMAIN saved[p], what \in {"id"} : saved[p][q].bad = "" /\ Damage(p, q, what)
Next == Acts
Spec == Init /\ [][Next]_svars

(* records, once stored, never change; a reader only moves forward *)
Stable == [][\A v \in DOMAIN vecs \cap DOMAIN vecs' : vecs[v].recs > 0 => vecs'[v].recs = vecs[v].recs]_svars
Forward == [][\A s \in DOMAIN sess \cap DOMAIN sess' : sess'[s].n >= sess[s].n]_svars
=============================================================================
