------------------------------ MODULE MC_Names ------------------------------
(* All strings up to a length over one byte of each class, and all short
   histories of registrations                                               *)
EXTENDS Names

CONSTANTS MaxLen, MaxExts

VARIABLE s

Bytes == {97, 90, 95, 48, 57, 45, 46, 58, 47, 32, 195}
Prefixes == {<<97>>, <<90>>, << >>}
Uris == {<<1>>, <<2>>, <<3>>}

mvars == <<nvars, s>>

Init == /\ exts = [f \in {"f"} |-> << >>]
        /\ state = [f \in {"f"} |-> "w"]
        /\ s = << >>

Grow == /\ Len(s) < MaxLen
        /\ Len(exts["f"]) <= 1
        /\ \E b \in Bytes : s' = Append(s, b)
        /\ UNCHANGED nvars

Register == /\ s = << >>
            /\ Len(exts["f"]) < MaxExts
            /\ \E p \in Prefixes, u \in Uris :
                 \E r \in {"ok"} \cup AddErrors("f", p, u) : Add("f", p, u, r)
            /\ UNCHANGED s

Save == /\ s = << >>
        /\ state["f"] = "w"
        /\ CloseFile("f")
        /\ UNCHANGED s

Load == /\ s = << >>
        /\ state["f"] = "closed" /\ "q" \notin DOMAIN state
        /\ Reopen("f", "q")
        /\ UNCHANGED s

Next == Grow \/ Register \/ Save \/ Load
Spec == Init /\ [][Next]_mvars

GrammarHolds == Grammar("f", s)
ReadIsWritten == "q" \in DOMAIN exts => exts["q"] = exts["f"]
OnlyGrows == [][\A f \in DOMAIN exts : Len(exts'[f]) >= Len(exts[f]) /\ SubSeq(exts'[f], 1, Len(exts[f])) = exts[f]]_mvars
=============================================================================
