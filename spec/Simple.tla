------------------------------- MODULE Simple -------------------------------
(* The Simple API (P19, P20, P21): scans and images are appended to a file with a Writer and fetched
   with a Reader.

   A header is a function from member names to texts: strings, decimal integers, hexadecimal floating
   point numbers (exact). Members belong to parts. A part is one optional element of the file: it is
   stored if a member differs from its default, and the members of a part that is not stored are
   delivered as defaults. The members that describe the points (fields, node types, ranges) are not
   stored as such but as the prototype of the points; they are delivered if a field tells them.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Zero == "0x0p+0"
Max64 == "0x1.fffffffffffffp+1023"
Min64 == "-0x1.fffffffffffffp+1023"
Max32 == "0x1.fffffep+127"
Min32 == "-0x1.fffffep+127"
All(keys, v) == [k \in keys |-> v]
If(c, e) == IF c THEN {e} ELSE {}
Set(q) == {q[i] : i \in 1..Len(q)}

(* ---------------------------------- headers of scans ---------------------------------- *)
Texts == {"name", "description", "sensorVendor", "sensorModel", "sensorSerialNumber", "sensorHardwareVersion",
          "sensorSoftwareVersion", "sensorFirmwareVersion", "originalGuids"}
Weather == {"temperature", "relativeHumidity", "atmosphericPressure"}
Start == {"start.v", "start.a"}
End == {"end.v", "end.a"}
Pose == {"pose.rw", "pose.rx", "pose.ry", "pose.rz", "pose.tx", "pose.ty", "pose.tz"}
Rows == {"ib.rowMin", "ib.rowMax"}
Columns == {"ib.colMin", "ib.colMax"}
Returns == {"ib.retMin", "ib.retMax"}
CBounds == {"cb.xMin", "cb.xMax", "cb.yMin", "cb.yMax", "cb.zMin", "cb.zMax"}
SBounds == {"sb.rMin", "sb.rMax", "sb.eMin", "sb.eMax", "sb.aStart", "sb.aEnd"}
ILimits == {"il.min", "il.max"}
CLimits == {"cl.rMin", "cl.rMax", "cl.gMin", "cl.gMax", "cl.bMin", "cl.bMax"}
Lines == {"grp.id", "grp.groups", "grp.count"}
PoseDefault == All(Pose \ {"pose.rw"}, Zero) @@ ("pose.rw" :> "0x1p+0")

Parts == {{k} : k \in Texts \cup Weather} \cup {Start, End, Pose, Rows, Columns, Returns, CBounds, SBounds, ILimits, CLimits}
PartKeys == UNION Parts
PartDefault ==
   All(Texts, "") @@ All(Weather, Max32)
   @@ ("start.v" :> Zero) @@ ("start.a" :> "0") @@ ("end.v" :> Zero) @@ ("end.a" :> "0") @@ PoseDefault
   @@ All(Rows \cup Columns \cup Returns, "0")
   @@ All({"cb.xMin", "cb.yMin", "cb.zMin"}, Min64) @@ All({"cb.xMax", "cb.yMax", "cb.zMax"}, Max64)
   @@ ("sb.rMin" :> Zero) @@ ("sb.rMax" :> Max64) @@ ("sb.eMin" :> "-0x1.921fb54442d18p+0")
   @@ ("sb.eMax" :> "0x1.921fb54442d18p+0") @@ ("sb.aStart" :> "-0x1.921fb54442d18p+1") @@ ("sb.aEnd" :> "0x1.921fb54442d18p+1")
   @@ All(ILimits \cup CLimits, Zero)

Coordinates == {"x", "y", "z", "r"}
Angles == {"az", "el"}
Fields == Coordinates \cup Angles
          \cup {"cinv", "sinv", "in", "ininv", "red", "green", "blue", "colinv", "row", "col", "ri", "rc", "ts", "tsinv", "nx", "ny", "nz"}
Flag(f) == CASE f = "x" -> "f.x" [] f = "y" -> "f.y" [] f = "z" -> "f.z" [] f = "r" -> "f.r" [] f = "az" -> "f.az" [] f = "el" -> "f.el"
             [] f = "cinv" -> "f.cinv" [] f = "sinv" -> "f.sinv" [] f = "in" -> "f.in" [] f = "ininv" -> "f.ininv"
             [] f = "red" -> "f.red" [] f = "green" -> "f.green" [] f = "blue" -> "f.blue" [] f = "colinv" -> "f.colinv"
             [] f = "row" -> "f.row" [] f = "col" -> "f.col" [] f = "ri" -> "f.ri" [] f = "rc" -> "f.rc"
             [] f = "ts" -> "f.ts" [] f = "tsinv" -> "f.tsinv" [] f = "nx" -> "f.nx" [] f = "ny" -> "f.ny" [] f = "nz" -> "f.nz"
Used(h) == {f \in Fields : h[Flag(f)] = "1"}

PointDefault ==
   [k \in {Flag(f) : f \in Fields} |-> "0"]
   @@ All({"range.min", "angle.min", "time.min"}, Min64) @@ All({"range.max", "angle.max", "time.max"}, Max64)
   @@ All({"range.type", "angle.type", "time.type", "int.type"}, "float")
   @@ All({"range.scale", "angle.scale", "time.scale", "int.scale"}, Zero)
   @@ All({"rowMax", "colMax"}, "4294967295") @@ ("retMax" :> "255")
ScanDefault == PartDefault @@ PointDefault @@ ("guid" :> "") @@ ("pointCount" :> "0")
               @@ ("grp.id" :> "") @@ ("grp.groups" :> "0") @@ ("grp.count" :> "0")

\* ---- what a file keeps of the parts
Stored(h, p) == \E k \in p : h[k] # PartDefault[k]
Elements(h) == [p \in {q \in Parts : Stored(h, q)} |-> [k \in p |-> h[k]]]
Fetch(els, k) == IF \E p \in DOMAIN els : k \in p
                 THEN els[CHOOSE p \in DOMAIN els : k \in p][k]
                 ELSE PartDefault[k]
Delivered(h) == LET e == Elements(h) IN [k \in PartKeys |-> Fetch(e, k)]

\* ---- kinds of nodes
NodeOf(h, f) == CASE f \in Coordinates -> h["range.type"] [] f \in Angles -> h["angle.type"]
                  [] f = "in" -> h["int.type"] [] f = "ts" -> h["time.type"]
                  [] f \in {"nx", "ny", "nz"} -> "float" [] OTHER -> "int"

\* ---- headers that are refused
HeaderErrs(h) ==
   LET u == Used(h) IN
   If(u \cap Coordinates # {} /\ h["range.type"] = "int", "ErrorInvalidNodeType")
   \cup If(u \cap Angles # {} /\ h["angle.type"] = "int", "ErrorInvalidNodeType")
   \cup If(u \cap Coordinates # {} /\ h["range.type"] = "scaled" /\ h["range.scale"] = Zero, "ErrorInvalidData3DValue")
   \cup If(u \cap Angles # {} /\ h["angle.type"] = "scaled" /\ h["angle.scale"] = Zero, "ErrorInvalidData3DValue")
   \cup If(("in" \in u \/ Stored(h, ILimits)) /\ h["int.type"] = "scaled" /\ h["int.scale"] = Zero, "ErrorInvalidData3DValue")
   \cup If("ts" \in u /\ h["time.type"] = "scaled" /\ h["time.scale"] = Zero, "ErrorInvalidData3DValue")
\* buffers allocated by the library for a header
AllocErrs(h) == If(h["range.type"] = "int" \/ h["angle.type"] = "int", "ErrorInvalidNodeType")
\* the header is adapted to these buffers: coordinates that are not scaled integers are stored in the
\* precision of the buffers, and limits may be those of that precision
AllocAfterOk(h, a, kind) ==
   \A k \in DOMAIN ScanDefault :
      CASE k \in {"range.type", "angle.type"} -> a[k] = (IF h[k] = "scaled" THEN "scaled" ELSE kind)
        [] k \in {"range.min", "angle.min", "time.min"} -> a[k] = h[k] \/ (kind = "float" /\ a[k] = Min32)
        [] k \in {"range.max", "angle.max", "time.max"} -> a[k] = h[k] \/ (kind = "float" /\ a[k] = Max32)
        [] OTHER -> a[k] = h[k]
\* every field needs a buffer
BufferErrs(h, bufs) == If(~(Used(h) \subseteq bufs), "ErrorNoBufferForElement") \cup If(Used(h) \cap bufs = {}, "ErrorBadAPIArgument")

(* ---- what the library may change in a header that is written: an empty guid is replaced, and the
   limits of scaled integers that were left open are computed from the points.                     *)
Unlimited(h, g) == <<h[g \o ".min"], h[g \o ".max"]>> \in {<<Min64, Max64>>, <<Min32, Max32>>}
Open(h, g) == h[g \o ".type"] = "scaled" /\ Unlimited(h, g)
Uses(h, g) == CASE g = "range" -> Used(h) \cap Coordinates # {}
                [] g = "angle" -> Used(h) \cap Angles # {}
                [] g = "time" -> "ts" \in Used(h)
Ranges == {"range", "angle", "time"}
\* admits: the limits computed contain all points
AfterOk(h0, h1, points, admits) ==
   \A k \in DOMAIN ScanDefault :
      IF k = "guid" THEN h1[k] = h0[k] \/ (h0[k] = "" /\ h1[k] # "")
      ELSE IF \E g \in Ranges : k \in {g \o ".min", g \o ".max"} /\ Open(h0, g)
           THEN LET g == CHOOSE x \in Ranges : k \in {x \o ".min", x \o ".max"}
                IN points > 0 /\ Uses(h0, g) => g \in admits
           ELSE h1[k] = h0[k]

(* ---- a header that is read: h as written, s the same numbers rounded to single precision, dev the
   distance of the numbers that were read in thousandths of a scale step                           *)
Half(d) == d <= 500
NumberOk(type, k, h, s, got, dev) == CASE type = "float" -> got[k] = s[k]
                                       [] type = "scaled" -> Half(dev[k])
                                       [] OTHER -> got[k] = h[k]
RangeOk(g, h, s, got, dev) ==
   /\ got[g \o ".type"] = h[g \o ".type"]
   /\ h[g \o ".type"] = "scaled" => got[g \o ".scale"] = h[g \o ".scale"]
   /\ \A k \in {g \o ".min", g \o ".max"} : NumberOk(h[g \o ".type"], k, h, s, got, dev)
\* a time that is not after the epoch may be taken for one that is not given
DateOk(p, h, got) == LET v == CHOOSE k \in p : k \in {"start.v", "end.v", "time.v"}
                     IN \/ \A k \in p : got[k] = h[k]
                        \/ h[v] = Zero /\ got[v] = Zero
ScanOk(sc, s, got, dev) ==
   LET h == sc.h
       u == Used(h)
       d == Delivered(h)
   IN /\ got["guid"] = h["guid"]
      /\ \A k \in PartKeys \ (Start \cup End \cup ILimits) : got[k] = d[k]
      /\ DateOk(Start, h, got)
      /\ DateOk(End, h, got)
      /\ \A k \in ILimits : NumberOk(h["int.type"], k, h, s, got, dev)
      /\ Used(got) = u
      /\ {"x", "r"} \cap u # {} /\ ~sc.wide["range"] => RangeOk("range", h, s, got, dev)
      /\ "az" \in u /\ ~sc.wide["angle"] => RangeOk("angle", h, s, got, dev)
      /\ "ts" \in u => IF h["time.type"] \in {"int", "scaled"} /\ ~sc.wide["time"] THEN RangeOk("time", h, s, got, dev)
                       ELSE got["time.type"] = h["time.type"]
      /\ "in" \in u => /\ got["int.type"] = h["int.type"]
                       /\ h["int.type"] = "scaled" => got["int.scale"] = h["int.scale"]
      /\ "row" \in u => got["rowMax"] = h["rowMax"]
      /\ "col" \in u => got["colMax"] = h["colMax"]
      /\ "ri" \in u => got["retMax"] = h["retMax"]
      /\ got["pointCount"] = ToString(sc.n)
      /\ IF h["grp.id"] = "" THEN \A k \in Lines : got[k] = ScanDefault[k]
         ELSE /\ got["grp.id"] = (IF h["grp.id"] = "rowIndex" THEN "rowIndex" ELSE "columnIndex")
              /\ got["grp.groups"] = ToString(Len(sc.groups))
              /\ got["grp.count"] = h["grp.count"]

\* sizes: of the bounds if they are stored, otherwise of the lines
Span(h, p, a, b, num) == IF Stored(h, p) THEN num[b] - num[a] + 1 ELSE 0
SizesOk(sc, num, got) ==
   LET h == sc.h
       lines == h["grp.id"] # ""
       byCol == lines /\ h["grp.id"] # "rowIndex"
       rows == Span(h, Rows, "ib.rowMin", "ib.rowMax", num)
       cols == Span(h, Columns, "ib.colMin", "ib.colMax", num)
       els == IF lines THEN num["grp.groups"] ELSE 0
       cnt == IF lines THEN num["grp.count"] ELSE 0
   IN /\ got.ret
      /\ got.points = sc.n
      /\ got.groups = Len(sc.groups)
      /\ got.count = cnt
      /\ got.byCol = byCol
      /\ got.row = (IF rows # 0 THEN rows ELSE IF byCol THEN cnt ELSE els)
      /\ got.col = (IF cols # 0 THEN cols ELSE IF byCol THEN els ELSE cnt)

(* -------------------------------------- points -------------------------------------- *)
\* c = [f, n, diff, diff32, milli]: values that differ, values that differ from the value in single
\* precision, largest distance in thousandths of a scale step (beyond the precision of the buffer)
ColumnOk(h, n, kind, c) ==
   /\ c.n = n
   /\ LET t == NodeOf(h, c.f)
      IN CASE t = "scaled" -> Half(c.milli)
           [] t = "float" -> c.diff32 = 0
           [] t = "double" -> IF kind = "float" /\ c.f \in Coordinates \cup Angles THEN c.diff32 = 0 ELSE c.diff = 0
           [] t = "int" -> c.diff = 0
PointsOk(sc, kind, n, cols) == /\ n = sc.n
                               /\ \A i \in 1..Len(cols) : cols[i].f \in Used(sc.h) => ColumnOk(sc.h, n, kind, cols[i])

\* ---- lines
GroupErrs(sc, num, ids, starts, counts) ==
   LET out(q, max) == \E i \in 1..Len(q) : q[i] < 0 \/ q[i] > max
   IN If(out(ids, num["grp.groups"] - 1) \/ out(starts, num["pointCount"] - 1) \/ out(counts, num["grp.count"]), "ErrorValueOutOfBounds")
\* n asked for; the rest of the buffers is as it was (-9)
Filled(q, n, was) == [i \in 1..n |-> IF i <= Len(q) THEN q[i] ELSE was]

(* -------------------------------------- images -------------------------------------- *)
Reps == {"vis", "pin", "sph", "cyl"}
RepKeys(r) == {r \o ".jpeg", r \o ".png", r \o ".mask", r \o ".width", r \o ".height"}
              \cup (CASE r = "vis" -> {}
                      [] r = "pin" -> {"pin.focal", "pin.pw", "pin.ph", "pin.px", "pin.py"}
                      [] r = "sph" -> {"sph.pw", "sph.ph"}
                      [] r = "cyl" -> {"cyl.pw", "cyl.ph", "cyl.radius", "cyl.py"})
Distortion == {"dist.number", "dist.type", "dist.k1", "dist.k2", "dist.k3", "dist.k4", "dist.k5", "dist.k6", "dist.p1", "dist.p2",
               "dist.cx", "dist.cy", "dist.fx", "dist.fy", "dist.height", "dist.width"}
ImageTexts == {"name", "description", "associatedData3DGuid", "sensorVendor", "sensorModel", "sensorSerialNumber"}
ImageTime == {"time.v", "time.a"}
HasRep(h, r) == h[r \o ".jpeg"] # "0" \/ h[r \o ".png"] # "0"
\* the representation that is stored ("": none)
RepOf(h) == IF \E r \in Reps : HasRep(h, r) THEN CHOOSE r \in Reps : HasRep(h, r) ELSE ""
Projection(r) == CASE r = "" -> 0 [] r = "vis" -> 1 [] r = "pin" -> 2 [] r = "sph" -> 3 [] r = "cyl" -> 4
None == 0
Jpeg == 1
Png == 2
Mask == 3
TypeOf(h) == LET r == RepOf(h) IN IF r = "" THEN None ELSE IF h[r \o ".jpeg"] # "0" THEN Jpeg ELSE Png

ImageOk(h, got) ==
   /\ \A k \in ImageTexts \cup Pose \cup {"guid", "dist"} \cup Distortion : got[k] = h[k]
   /\ DateOk(ImageTime, h, got)
   /\ \A r \in Reps : r = RepOf(h) => \A k \in RepKeys(r) : got[k] = h[k]
   /\ \A r \in Reps : r # RepOf(h) => ~HasRep(got, r) /\ got[r \o ".mask"] = "0"
ImageAfterOk(h0, h1) == \A k \in DOMAIN h0 : h1[k] = h0[k] \/ (k = "guid" /\ h0[k] = "" /\ h1[k] # "")

\* contents of an image: Jpeg or Png, and Mask; size in bytes, 0 if there is none
SizeOf(im, type) == LET r == RepOf(im.h) IN
                    IF r = "" THEN 0
                    ELSE CASE type = Jpeg -> IF TypeOf(im.h) = Jpeg THEN im.num[r \o ".jpeg"] ELSE 0
                           [] type = Png -> IF TypeOf(im.h) = Png THEN im.num[r \o ".png"] ELSE 0
                           [] type = Mask -> im.num[r \o ".mask"]
                           [] OTHER -> 0
Exists(im, proj, type) == proj = Projection(RepOf(im.h)) /\ proj # 0 /\ SizeOf(im, type) > 0
TransferErrs(im, type, start, count) == If(start < 0 \/ start + count > SizeOf(im, type), "ErrorBadAPIArgument")

ImageSizesOk(im, got) ==
   LET r == RepOf(im.h) IN
   IF r = "" THEN ~got.ret /\ got.proj = 0 /\ got.type = None /\ got.mask = None /\ got.visual = None
   ELSE /\ got.ret
        /\ got.proj = Projection(r)
        /\ got.type = TypeOf(im.h)
        /\ got.width = im.num[r \o ".width"]
        /\ got.height = im.num[r \o ".height"]
        /\ got.size = SizeOf(im, TypeOf(im.h))
        /\ got.mask = (IF im.num[r \o ".mask"] > 0 THEN Mask ELSE None)
        /\ got.visual = (IF r = "vis" THEN TypeOf(im.h) ELSE None)

\* writes of constant pieces [type, start, count, v]; a byte has the value of the last write to it
ByteAt(ws, type, p) ==
   LET c == {i \in 1..Len(ws) : ws[i].type = type /\ ws[i].start <= p /\ p < ws[i].start + ws[i].count}
   IN IF c = {} THEN 0 ELSE ws[CHOOSE i \in c : \A j \in c : j <= i].v
\* the places where the value can change
Edges(ws, type) == UNION {{ws[i].start, ws[i].start + ws[i].count} : i \in {j \in 1..Len(ws) : ws[j].type = type}}
RECURSIVE RunsFrom(_, _, _, _, _)
RunsFrom(runs, k, at, ws, type) ==
   IF k > Len(runs) THEN TRUE
   ELSE /\ \A p \in {at} \cup {x \in Edges(ws, type) : at < x /\ x < at + runs[k][2]} : ByteAt(ws, type, p) = runs[k][1]
        /\ RunsFrom(runs, k + 1, at + runs[k][2], ws, type)

(* ------------------------------- a file that is written ------------------------------- *)
\* scans: [h, n, groups, wide, mutable]   images: [h, num, ws]
VARIABLES scans, images, mode       \* mode: "none" "write" "closed"
vars == <<scans, images, mode>>

NewScan(h, n, wide) == [h |-> h, n |-> n, groups |-> <<>>, wide |-> wide, pts |-> n > 0, grp |-> FALSE]
AddScan(h, n, wide) == /\ scans' = Append(scans, NewScan(h, n, wide))
                       /\ UNCHANGED <<images, mode>>
AddImage(h, num) == /\ images' = Append(images, [h |-> h, num |-> num, ws |-> <<>>])
                    /\ UNCHANGED <<scans, mode>>
WriteImage(i, w) == /\ images' = [images EXCEPT ![i].ws = Append(@, w)]
                    /\ UNCHANGED <<scans, mode>>
=============================================================================
