----------------------------- MODULE MC_Foreign -----------------------------
(* Foreign on its own: a scan and an image gain and lose elements. For every set of elements there is
   a header that is accepted, a header that differs from it in any member is not, and an element that
   comes or goes changes only the members that depend on it.                                        *)
EXTENDS Foreign

CONSTANT Small      \* fewer units

VARIABLES el, im
mcvars == <<el, im, vars>>

A == "0x1p+1"
B == "0x1p+2"
F(t, single) == [t |-> t, single |-> single, scale |-> IF t = "ScaledInteger" THEN "0x1p-1" ELSE Zero, lo |-> "-0x1p+0", hi |-> B, max |-> "9", free |-> FALSE]
One(p, e) == (p :> e)
V(x) == [v |-> x, s |-> x]
I(x, n) == [v |-> x, n |-> n]

\* units: elements that come together; each has alternatives
ScanUnits ==
   [name |-> {One("name", V("n"))},
    temperature |-> {One("temperature", [v |-> A, s |-> B])},
    start |-> {One("acquisitionStart/dateTimeValue", V(A)),
               One("acquisitionStart/dateTimeValue", V(A)) @@ One("acquisitionStart/isAtomicClockReferenced", I("1", 1))},
    rotation |-> {One("pose/rotation/w", V(A)) @@ One("pose/rotation/x", V(B)) @@ One("pose/rotation/y", V(A)) @@ One("pose/rotation/z", V(B))},
    translation |-> {One("pose/translation/x", V(A)) @@ One("pose/translation/y", V(B)) @@ One("pose/translation/z", V(A))},
    rows |-> {One("indexBounds/rowMinimum", I("2", 2)) @@ One("indexBounds/rowMaximum", I("5", 5))},
    limits |-> {One("intensityLimits/intensityMinimum", V(x[1])) @@ One("intensityLimits/intensityMaximum", V(x[2]))
                : x \in {<<Zero, A>>, <<A, Zero>>, <<Zero, Zero>>}},
    intensity |-> {One("points/intensity", F(t[1], t[2])) : t \in {<<"Integer", FALSE>>, <<"ScaledInteger", FALSE>>, <<"Float", TRUE>>, <<"Float", FALSE>>}},
    x |-> {One("points/cartesianX", F(t, FALSE)) : t \in {"Integer", "ScaledInteger", "Float"}},
    r |-> {One("points/sphericalRange", [F("Float", TRUE) EXCEPT !.hi = "0x1p+5"])},
    row |-> {One("points/rowIndex", F("Integer", FALSE))},
    lines |-> {One("groups", [count |-> "3", n |-> 3]) @@ One("groupingByLine/idElementName", V("columnIndex")) @@ c
               : c \in {<<>>, One("groups/pointCount", [max |-> "8", n |-> 8]), One("groups/idElementValue", [span |-> 6])}}]
Chosen == IF Small THEN {"start", "rotation", "limits", "intensity", "x", "r"} ELSE DOMAIN ScanUnits \ {"name", "row", "translation"}
PathsOf(u) == UNION {DOMAIN a : a \in ScanUnits[u]}
Deps(u) == CASE u = "name" -> {"name"} [] u = "temperature" -> {"temperature"} [] u = "start" -> {"start.v", "start.a"}
             [] u = "rotation" -> {"pose.rw", "pose.rx", "pose.ry", "pose.rz"} [] u = "translation" -> {"pose.tx", "pose.ty", "pose.tz"}
             [] u = "rows" -> {"ib.rowMin", "ib.rowMax"} [] u = "limits" -> {"il.min", "il.max"}
             [] u = "intensity" -> {"il.min", "il.max", "int.type", "int.scale", "f.in"}
             [] u = "x" -> {"f.x", "range.min", "range.max", "range.type", "range.scale"}
             [] u = "r" -> {"f.r", "range.min", "range.max", "range.type", "range.scale"}
             [] u = "row" -> {"f.row", "rowMax"}
             [] u = "lines" -> Lines
Base == One("guid", V("g")) @@ One("points", [count |-> "7", n |-> 7])

\* the header of a set of elements
Group(e, g, f, k) == IF ~Has(e, FieldPath[f]) THEN "none"
                     ELSE LET x == e[FieldPath[f]] IN
                          IF x.t = "Integer" /\ g \in {"range", "angle"} THEN "none"
                          ELSE CASE k = "type" -> Node(x) [] k = "scale" -> x.scale [] k = "min" -> x.lo [] k = "max" -> x.hi
RangeField(e) == IF Has(e, FieldPath["x"]) THEN "x" ELSE "r"
Limit(e, q, k) == IF Told(e, q) THEN e[LimitPaths[k]].v
                  ELSE IF ~Has(e, FieldPath[q[3]]) THEN Zero
                  ELSE IF k = q[1] THEN e[FieldPath[q[3]]].lo ELSE e[FieldPath[q[3]]].hi
Report(e) ==
   [k \in DOMAIN ScanPaths |-> Own(e, k)]
   @@ [k \in {Flag(f) : f \in Fields} |-> IF \E f \in Fields : Flag(f) = k /\ Has(e, FieldPath[f]) THEN "1" ELSE "0"]
   @@ [k \in ILimits |-> Limit(e, Limits.i, k)] @@ [k \in {"cl.rMin", "cl.rMax"} |-> Limit(e, Limits.r, k)]
   @@ [k \in {"cl.gMin", "cl.gMax"} |-> Limit(e, Limits.g, k)] @@ [k \in {"cl.bMin", "cl.bMax"} |-> Limit(e, Limits.b, k)]
   @@ ("range.type" :> Group(e, "range", RangeField(e), "type")) @@ ("range.scale" :> Group(e, "range", RangeField(e), "scale"))
   @@ ("range.min" :> Group(e, "range", RangeField(e), "min")) @@ ("range.max" :> Group(e, "range", RangeField(e), "max"))
   @@ ("int.type" :> Group(e, "int", "in", "type")) @@ ("int.scale" :> Group(e, "int", "in", "scale"))
   @@ ("rowMax" :> IF Has(e, FieldPath["row"]) THEN e[FieldPath["row"]].max ELSE "none")
   @@ ("pointCount" :> e["points"].count) @@ ("grp.id" :> Value(e, "groupingByLine/idElementName", ""))
   @@ ("grp.groups" :> IF Has(e, "groups") THEN e["groups"].count ELSE "0")
   @@ ("grp.count" :> IF Has(e, "groups/pointCount") THEN e["groups/pointCount"].max ELSE "0")
\* members that nothing tells
Untold(e) == LET h == Report(e) IN
             {k \in DOMAIN h : h[k] = "none"}
             \cup (IF h["range.type"] # "scaled" THEN {"range.scale"} ELSE {}) \cup (IF h["int.type"] # "scaled" THEN {"int.scale"} ELSE {})

(* ---- images: at most one projection besides the visual reference ---- *)
Rep(r) == One(RepPath(r), V("")) @@ One(RepPath(r) \o "/imageWidth", I("4", 4)) @@ One(RepPath(r) \o "/imageHeight", I("6", 6))
Numbers(r) == [p \in {RepKey(r, k) : k \in {x \in RepKeys(r) : RepDefault(x) = Zero}} |-> V(A)]
Blobs(r) == {<<>>, One(RepPath(r) \o "/jpegImage", I("10", 10)), One(RepPath(r) \o "/pngImage", I("11", 11)), One(RepPath(r) \o "/imageMask", I("12", 12)),
             One(RepPath(r) \o "/pngImage", I("11", 11)) @@ One(RepPath(r) \o "/imageMask", I("12", 12))}
Contents(r) == {Rep(r) @@ Numbers(r) @@ b : b \in Blobs(r)}
ImageReport(e) ==
   [k \in DOMAIN ImagePaths |-> IF Has(e, ImagePaths[k]) THEN e[ImagePaths[k]].v ELSE ImageNone(k)]
   @@ [k \in UNION {RepKeys(r) : r \in Reps} |-> LET r == CHOOSE x \in Reps : k \in RepKeys(x) IN Value(e, RepKey(r, k), RepDefault(k))]
   @@ ("dist" :> IF Has(e, "dist:distortion") THEN "1" ELSE "0") @@ [k \in Distortion |-> Value(e, DistPath[k], DistNone(k))]
ImageBase == One("guid", V("i"))
Without(e, ps) == [p \in DOMAIN e \ ps |-> e[p]]
RepPaths(rs) == {p \in DOMAIN im : \E r \in rs : p = RepPath(r) \/ p \in {RepPath(r) \o "/" \o RepMember(k) : k \in RepKeys(r)}}

Init == /\ el = Base /\ im = ImageBase
        /\ scans = <<>> /\ images = <<>> /\ mode = "read"
Change(u) == \E a \in ScanUnits[u] \cup {<<>>} :
                el' = a @@ Without(el, PathsOf(u))
ScanStep == /\ im = ImageBase /\ UNCHANGED im
            /\ \E u \in Chosen : Change(u)
ImageStep == /\ el = Base /\ UNCHANGED el
             /\ \/ \E a \in Contents("vis") \cup {<<>>} : im' = a @@ Without(im, RepPaths({"vis"}))
                \/ \E a \in UNION {Contents(r) : r \in {"pin", "sph", "cyl"}} \cup {<<>>} : im' = a @@ Without(im, RepPaths({"pin", "sph", "cyl"}))
                \/ \E a \in {<<>>, One("dist:distortion", V("")), One("dist:distortion", V("")) @@ One("dist:distortion/dist:CV_K1", V(A))} :
                      im' = a @@ Without(im, {"dist:distortion", "dist:distortion/dist:CV_K1"})
Next == (ScanStep \/ ImageStep) /\ UNCHANGED vars
Spec == Init /\ [][Next]_mcvars

Accepted == ForeignScanOk(el, Report(el)) /\ ForeignImageOk(im, ImageReport(im))
Tight == /\ im = ImageBase => LET h == Report(el) IN \A k \in DOMAIN h \ Untold(el) : ~ForeignScanOk(el, [h EXCEPT ![k] = "other"])
         /\ el = Base => LET h == ImageReport(im) IN \A k \in DOMAIN h : ~ForeignImageOk(im, [h EXCEPT ![k] = "other"])
\* an element tells its members and no others
Independent ==
   [][el' # el => LET h == Report(el)
                      g == Report(el')
                      diff == {k \in DOMAIN h : h[k] # g[k]}
                  IN \A u \in Chosen : Without(el, PathsOf(u)) = Without(el', PathsOf(u)) => diff \subseteq Deps(u)]_mcvars
\* what is told of an image exists, and can be read
SizesTold == LET r == First(im) IN
             r # "" => LET t == Main(im, r) IN t # None => Has(im, BlobPath(Projection(r), t))
FirstVisual == Has(im, RepPath("vis")) => First(im) = "vis"
=============================================================================
