-------------------------------- MODULE Names --------------------------------
(* Element names, path names and extensions (property P11).

   A string is the sequence of its bytes.  The grammar:

      identifier ::= (letter | "_" | high) (letter | digit | "_" | "-" | "." | high)*
      element    ::= identifier | identifier ":" identifier | digit+
      path       ::= ["/"] element ("/" element)*  |  "/"

   where high stands for any byte of a multi-byte character, digits alone name
   the children of vectors, and a prefix has to be registered in the file.  *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES exts,   \* exts[f]: sequence of <<prefix, uri>> in order of registration
          state   \* state[f]: "w", "r" or "closed"
nvars == <<exts, state>>

Colon == 58
Slash == 47

Letter(c) == (c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90)
Digit(c) == c >= 48 /\ c <= 57
Starts(c) == Letter(c) \/ c = 95 \/ c >= 128
Follows(c) == Starts(c) \/ Digit(c) \/ c = 45 \/ c = 46

Identifier(s) == /\ s # << >>
                 /\ Starts(s[1])
                 /\ \A i \in DOMAIN s : Follows(s[i])
Number(s) == s # << >> /\ \A i \in DOMAIN s : Digit(s[i])

ColonsOf(s) == {i \in DOMAIN s : s[i] = Colon}
ColonAt(s) == CHOOSE i \in ColonsOf(s) : TRUE
PrefixOf(s) == SubSeq(s, 1, ColonAt(s) - 1)
LocalOf(s) == SubSeq(s, ColonAt(s) + 1, Len(s))
Prefixed(s) == /\ Cardinality(ColonsOf(s)) = 1
               /\ Identifier(PrefixOf(s))
               /\ Identifier(LocalOf(s))

(* The class of an element name *)
Class(s) == IF s = << >> THEN "empty"
            ELSE IF Number(s) THEN "num"
            ELSE IF Identifier(s) THEN "id"
            ELSE IF Prefixed(s) THEN "ext"
            ELSE "bad"

-----------------------------------------------------------------------------
(* Path names *)
Absolute(s) == s # << >> /\ s[1] = Slash
Body(s) == IF Absolute(s) THEN Tail(s) ELSE s

RECURSIVE SplitAt(_, _, _)
SplitAt(s, from, i) == IF i > Len(s) THEN <<SubSeq(s, from, Len(s))>>
                       ELSE IF s[i] = Slash THEN <<SubSeq(s, from, i - 1)>> \o SplitAt(s, i + 1, i + 1)
                       ELSE SplitAt(s, from, i + 1)
Fields(s) == IF Body(s) = << >> THEN << >> ELSE SplitAt(Body(s), 1, 1)

RECURSIVE JoinFrom(_, _)
JoinFrom(fs, i) == IF i > Len(fs) THEN << >> ELSE (IF i = 1 THEN << >> ELSE <<Slash>>) \o fs[i] \o JoinFrom(fs, i + 1)
Join(abs, fs) == (IF abs THEN <<Slash>> ELSE << >>) \o JoinFrom(fs, 1)

Registered(f, p) == \E i \in DOMAIN exts[f] : exts[f][i][1] = p

ElementErrors(f, s) ==
  CASE Class(s) = "empty" -> {"ErrorPathNameEmpty"}
    [] Class(s) = "bad" -> {"ErrorPathNameMalformed"}
    [] Class(s) = "ext" -> IF Registered(f, PrefixOf(s)) THEN {} ELSE {"ErrorPathNameExtensionNotRegistered"}
    [] OTHER -> {}

(* What is wrong with s as a path; a final slash is judged by the operation *)
PathErrors(f, s) ==
  LET fs == Fields(s) IN
  (IF fs = << >> /\ ~Absolute(s) THEN {"ErrorPathNameEmpty"} ELSE {})
  \cup UNION {IF i = Len(fs) /\ i > 1 /\ fs[i] = << >> THEN {} ELSE ElementErrors(f, fs[i]) : i \in DOMAIN fs}

FinalSlash(s) == LET fs == Fields(s) IN Len(fs) > 1 /\ fs[Len(fs)] = << >>

-----------------------------------------------------------------------------
(* What the API has to say about a string; the structure asked is empty and a
   root of its own                                                          *)
ParseVerdict(s) == CASE Class(s) \in {"id", "ext", "num"} -> "ok"
                     [] Class(s) = "empty" -> "ErrorPathNameEmpty"
                     [] OTHER -> "ErrorPathNameMalformed"

SetErrors(f, s) ==
  LET fs == Fields(s)
      p == PathErrors(f, s) IN
  IF p # {} THEN p
  ELSE IF fs = << >> THEN {"ErrorSetTwice"}
  ELSE IF Len(fs) > 1 THEN {"ErrorPathUndefined"} \cup (IF FinalSlash(s) THEN {"ErrorPathNameEmpty"} ELSE {})
  ELSE IF Class(fs[1]) = "num" THEN {"ErrorPathNameMalformed"}
  ELSE {}

(* Lookup in a tree given by the set of paths (sequences of names) it has *)
FindErrors(f, tree, s) ==
  LET p == PathErrors(f, s) IN
  p \cup (IF Fields(s) \in tree THEN {} ELSE {"ErrorPathUndefined"})
    \cup (IF FinalSlash(s) THEN {"ErrorPathNameEmpty"} ELSE {})

(* A name with an unknown prefix cannot be defined: saying so is as good as refusing it *)
DefinedOutcomes(f, tree, s) ==
  LET p == PathErrors(f, s)
      hard == (p \ {"ErrorPathNameExtensionNotRegistered"}) \cup (IF FinalSlash(s) THEN {"ErrorPathNameEmpty"} ELSE {})
      soft == "ErrorPathNameExtensionNotRegistered" \in p \/ FinalSlash(s)
  IN IF p = {} /\ ~FinalSlash(s) THEN (IF Fields(s) \in tree THEN {"yes"} ELSE {"no"})
     ELSE hard \cup (IF soft THEN {"no"} ELSE {})

Outcome(errs, r) == IF errs = {} THEN r = "ok" ELSE r \in errs

IsString(x) == x \in Seq(0..255)

(* x: everything observed about s in file f *)
Judged(f, s, x) ==
  LET e == SetErrors(f, s)
      made == {Fields(s)} \cap {fs \in {Fields(s)} : e = {}}
      tree == {<< >>} \cup made IN
  /\ state[f] # "closed"
  /\ x.ext = IF Class(s) = "ext" THEN "yes" ELSE "no"
  /\ x.parse = ParseVerdict(s)
  /\ x.p = IF Class(s) = "ext" THEN PrefixOf(s) ELSE << >>
  /\ x.l = IF Class(s) = "ext" THEN LocalOf(s) ELSE IF Class(s) \in {"id", "num"} THEN s ELSE << >>
  /\ Outcome(IF state[f] = "r" THEN {"ErrorFileReadOnly"} \cup e ELSE e, x.set)
  /\ state[f] = "w" =>
       /\ x.kids = IF e = {} THEN 1 ELSE 0
       /\ x.kid = IF e = {} THEN Fields(s)[1] ELSE << >>
       /\ x.def \in DefinedOutcomes(f, tree, s)
       /\ Outcome(FindErrors(f, tree, s), x.get)
  /\ Outcome(PathErrors(f, s), x.buf)
  /\ UNCHANGED nvars

(* Lookup of path s below the root of a tree with the given paths *)
Looked(f, tree, s, def, get, path) ==
  LET e == FindErrors(f, tree, s) IN
  /\ def \in DefinedOutcomes(f, tree, s)
  /\ Outcome(e, get)
  /\ e = {} => path = Join(TRUE, Fields(s))
  /\ UNCHANGED nvars

-----------------------------------------------------------------------------
(* Extensions *)
EmptyFun == [x \in {} |-> x]
NInit == exts = EmptyFun /\ state = EmptyFun

OpenFile(f) == /\ exts' = [g \in DOMAIN exts \cup {f} |-> IF g = f THEN << >> ELSE exts[g]]
               /\ state' = [g \in DOMAIN state \cup {f} |-> IF g = f THEN "w" ELSE state[g]]

CloseFile(f) == /\ state' = [state EXCEPT ![f] = "closed"]
                /\ UNCHANGED exts

(* q reads the file that f wrote *)
Reopen(f, q) == /\ state[f] = "closed"
                /\ exts' = [g \in DOMAIN exts \cup {q} |-> IF g = q THEN exts[f] ELSE exts[g]]
                /\ state' = [g \in DOMAIN state \cup {q} |-> IF g = q THEN "r" ELSE state[g]]

ClosedErrors(f) == IF state[f] = "closed" THEN {"ErrorImageFileNotOpen"} ELSE {}

AddErrors(f, p, u) ==
  IF state[f] = "closed" THEN ClosedErrors(f)
  ELSE (IF state[f] = "r" THEN {"ErrorFileReadOnly"} ELSE {})
       \cup (IF \E i \in DOMAIN exts[f] : exts[f][i][1] = p THEN {"ErrorDuplicateNamespacePrefix"} ELSE {})
       \cup (IF \E i \in DOMAIN exts[f] : exts[f][i][2] = u THEN {"ErrorDuplicateNamespaceURI"} ELSE {})

Add(f, p, u, r) ==
  LET e == AddErrors(f, p, u) IN
  /\ Outcome(e, r)
  /\ exts' = IF e = {} THEN [exts EXCEPT ![f] = Append(@, <<p, u>>)] ELSE exts
  /\ UNCHANGED state

(* The default namespace of the format may be listed in a file that was read *)
DefaultUri == "http://www.astm.org/COMMIT/E57/2010-e57-v1.0"
IsDefault(x) == x[1] = << >>
Own(x) == SelectSeq(x, LAMBDA y : ~IsDefault(y))
Listing(f, r, x) == /\ Outcome(ClosedErrors(f), r)
                    /\ r = "ok" => \/ x = exts[f]
                                   \/ /\ state[f] = "r"
                                      /\ Own(x) = Own(exts[f])
                                      /\ Len(x) <= Len(Own(x)) + 1
                    /\ UNCHANGED nvars

ByPrefix(f, p, r, found, v) ==
  LET m == {i \in DOMAIN exts[f] : exts[f][i][1] = p} IN
  /\ Outcome(ClosedErrors(f), r)
  /\ r = "ok" => /\ found = IF m = {} THEN "no" ELSE "yes"
                 /\ v = IF m = {} THEN << >> ELSE exts[f][CHOOSE i \in m : TRUE][2]
  /\ UNCHANGED nvars

ByUri(f, u, r, found, v) ==
  LET m == {i \in DOMAIN exts[f] : exts[f][i][2] = u} IN
  /\ Outcome(ClosedErrors(f), r)
  /\ r = "ok" => /\ found = IF m = {} THEN "no" ELSE "yes"
                 /\ v = IF m = {} THEN << >> ELSE exts[f][CHOOSE i \in m : TRUE][1]
  /\ UNCHANGED nvars

-----------------------------------------------------------------------------
(* What has to hold *)
Unique == \A f \in DOMAIN exts : \A i, j \in DOMAIN exts[f] :
            i # j => exts[f][i][1] # exts[f][j][1] /\ exts[f][i][2] # exts[f][j][2]

(* the classes and the two directions of path names agree for string s *)
Grammar(f, s) ==
  /\ Join(Absolute(s), Fields(s)) = s
  /\ Class(s) = "ext" => PrefixOf(s) \o <<Colon>> \o LocalOf(s) = s
  /\ Class(s) \in {"id", "ext", "num"} => Fields(s) = <<s>> /\ ~Absolute(s)
  /\ (SetErrors(f, s) = {}) =>
       /\ Class(Fields(s)[1]) \in {"id", "ext"}
       /\ Len(Fields(s)) = 1
       /\ PathErrors(f, s) = {}
  /\ (PathErrors(f, s) = {} /\ Class(s) = "ext") => Registered(f, PrefixOf(s))
=============================================================================
