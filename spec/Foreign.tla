------------------------------- MODULE Foreign -------------------------------
(* Files of other writers, read with the Reader of the Simple API (P22).

   A scan or an image of a file is a set of elements: a function from path names to elements. Every
   element has a type (t), and depending on it a value (v), the value in single precision (s), bounds
   of its field as numbers (lo, hi), a scale and a precision. The Reader tells the value of every
   element that is there and the default of every element that is not, whatever type a number is
   stored in and whatever other elements there are.                                              *)
EXTENDS Simple

(* ---- where the members of a header are ---- *)
Same(keys) == [k \in keys |-> k]
PosePaths == ("pose.rw" :> "pose/rotation/w") @@ ("pose.rx" :> "pose/rotation/x") @@ ("pose.ry" :> "pose/rotation/y")
             @@ ("pose.rz" :> "pose/rotation/z") @@ ("pose.tx" :> "pose/translation/x") @@ ("pose.ty" :> "pose/translation/y")
             @@ ("pose.tz" :> "pose/translation/z")
ScanPaths ==
   Same(Texts \cup Weather \cup {"guid"}) @@ PosePaths
   @@ ("start.v" :> "acquisitionStart/dateTimeValue") @@ ("start.a" :> "acquisitionStart/isAtomicClockReferenced")
   @@ ("end.v" :> "acquisitionEnd/dateTimeValue") @@ ("end.a" :> "acquisitionEnd/isAtomicClockReferenced")
   @@ ("ib.rowMin" :> "indexBounds/rowMinimum") @@ ("ib.rowMax" :> "indexBounds/rowMaximum")
   @@ ("ib.colMin" :> "indexBounds/columnMinimum") @@ ("ib.colMax" :> "indexBounds/columnMaximum")
   @@ ("ib.retMin" :> "indexBounds/returnMinimum") @@ ("ib.retMax" :> "indexBounds/returnMaximum")
   @@ ("cb.xMin" :> "cartesianBounds/xMinimum") @@ ("cb.xMax" :> "cartesianBounds/xMaximum")
   @@ ("cb.yMin" :> "cartesianBounds/yMinimum") @@ ("cb.yMax" :> "cartesianBounds/yMaximum")
   @@ ("cb.zMin" :> "cartesianBounds/zMinimum") @@ ("cb.zMax" :> "cartesianBounds/zMaximum")
   @@ ("sb.rMin" :> "sphericalBounds/rangeMinimum") @@ ("sb.rMax" :> "sphericalBounds/rangeMaximum")
   @@ ("sb.eMin" :> "sphericalBounds/elevationMinimum") @@ ("sb.eMax" :> "sphericalBounds/elevationMaximum")
   @@ ("sb.aStart" :> "sphericalBounds/azimuthStart") @@ ("sb.aEnd" :> "sphericalBounds/azimuthEnd")
LimitPaths ==
   ("il.min" :> "intensityLimits/intensityMinimum") @@ ("il.max" :> "intensityLimits/intensityMaximum")
   @@ ("cl.rMin" :> "colorLimits/colorRedMinimum") @@ ("cl.rMax" :> "colorLimits/colorRedMaximum")
   @@ ("cl.gMin" :> "colorLimits/colorGreenMinimum") @@ ("cl.gMax" :> "colorLimits/colorGreenMaximum")
   @@ ("cl.bMin" :> "colorLimits/colorBlueMinimum") @@ ("cl.bMax" :> "colorLimits/colorBlueMaximum")
FieldPath ==
   ("x" :> "points/cartesianX") @@ ("y" :> "points/cartesianY") @@ ("z" :> "points/cartesianZ") @@ ("cinv" :> "points/cartesianInvalidState")
   @@ ("r" :> "points/sphericalRange") @@ ("az" :> "points/sphericalAzimuth") @@ ("el" :> "points/sphericalElevation")
   @@ ("sinv" :> "points/sphericalInvalidState") @@ ("in" :> "points/intensity") @@ ("ininv" :> "points/isIntensityInvalid")
   @@ ("red" :> "points/colorRed") @@ ("green" :> "points/colorGreen") @@ ("blue" :> "points/colorBlue") @@ ("colinv" :> "points/isColorInvalid")
   @@ ("row" :> "points/rowIndex") @@ ("col" :> "points/columnIndex") @@ ("ri" :> "points/returnIndex") @@ ("rc" :> "points/returnCount")
   @@ ("ts" :> "points/timeStamp") @@ ("tsinv" :> "points/isTimeStampInvalid")
   @@ ("nx" :> "points/nor:normalX") @@ ("ny" :> "points/nor:normalY") @@ ("nz" :> "points/nor:normalZ")

Has(el, p) == p \in DOMAIN el
Value(el, p, default) == IF Has(el, p) THEN el[p].v ELSE default

(* ---- members that have an element of their own ---- *)
Own(el, k) == IF k = "guid" THEN el["guid"].v
              ELSE IF k \in Weather THEN (IF Has(el, k) THEN el[k].s ELSE PartDefault[k])
              ELSE Value(el, ScanPaths[k], PartDefault[k])

(* ---- limits of intensity and colours: those of the scan; if it tells none, those of the field ---- *)
Limits == [i |-> <<"il.min", "il.max", "in">>, r |-> <<"cl.rMin", "cl.rMax", "red">>,
           g |-> <<"cl.gMin", "cl.gMax", "green">>, b |-> <<"cl.bMin", "cl.bMax", "blue">>]
Told(el, q) == /\ Has(el, LimitPaths[q[1]])
               /\ <<el[LimitPaths[q[1]]].v, el[LimitPaths[q[2]]].v>> # <<Zero, Zero>>
LimitsOk(el, q, got) ==
   LET f == FieldPath[q[3]] IN
   IF Told(el, q) THEN got[q[1]] = el[LimitPaths[q[1]]].v /\ got[q[2]] = el[LimitPaths[q[2]]].v
   ELSE IF ~Has(el, f) THEN got[q[1]] = Zero /\ got[q[2]] = Zero
   \* an integer colour without bounds has no limits to tell
   ELSE el[f].free \/ (got[q[1]] = el[f].lo /\ got[q[2]] = el[f].hi)

(* ---- how numbers are stored: told by one field of a group ---- *)
Node(e) == CASE e.t = "Float" -> (IF e.single THEN "float" ELSE "double") [] e.t = "ScaledInteger" -> "scaled" [] OTHER -> "int"
GroupOk(el, g, f, got) ==
   Has(el, FieldPath[f]) =>
      LET e == el[FieldPath[f]] IN
      \/ e.t = "Integer" /\ g \in {"range", "angle"}     \* coordinates that are not described
      \/ /\ got[g \o ".type"] = Node(e)
         /\ e.t = "ScaledInteger" => got[g \o ".scale"] = e.scale
         /\ g # "int" => got[g \o ".min"] = e.lo /\ got[g \o ".max"] = e.hi

ForeignScanOk(el, got) ==
   /\ \A k \in DOMAIN ScanPaths : got[k] = Own(el, k)
   /\ \A f \in Fields : got[Flag(f)] = (IF Has(el, FieldPath[f]) THEN "1" ELSE "0")
   /\ \A q \in {Limits.i, Limits.r, Limits.g, Limits.b} : LimitsOk(el, q, got)
   /\ GroupOk(el, "range", IF Has(el, FieldPath["x"]) THEN "x" ELSE "r", got)
   /\ GroupOk(el, "angle", "az", got)
   /\ GroupOk(el, "time", "ts", got)
   /\ GroupOk(el, "int", "in", got)
   /\ \A p \in {<<"row", "rowMax">>, <<"col", "colMax">>, <<"ri", "retMax">>} :
         Has(el, FieldPath[p[1]]) => got[p[2]] = el[FieldPath[p[1]]].max
   /\ got["pointCount"] = el["points"].count
   /\ got["grp.id"] = Value(el, "groupingByLine/idElementName", "")
   /\ got["grp.groups"] = (IF Has(el, "groups") THEN el["groups"].count ELSE "0")
   /\ got["grp.count"] = (IF Has(el, "groups/pointCount") THEN el["groups/pointCount"].max ELSE "0")

(* ---- sizes: of the bounds; otherwise of the lines, as far as their records tell them ---- *)
Extent(el, a, b) == IF Has(el, ScanPaths[b]) THEN el[ScanPaths[b]].n - el[ScanPaths[a]].n + 1 ELSE 0
ForeignSizesOk(el, got) ==
   LET lines == Has(el, "groups")
       byCol == lines /\ el["groupingByLine/idElementName"].v = "columnIndex"
       rows == Extent(el, "ib.rowMin", "ib.rowMax")
       cols == Extent(el, "ib.colMin", "ib.colMax")
       els == IF Has(el, "groups/idElementValue") THEN el["groups/idElementValue"].span
              ELSE IF ~lines THEN 0 ELSE IF byCol THEN cols ELSE rows
       cnt == IF Has(el, "groups/pointCount") THEN el["groups/pointCount"].n
              ELSE IF ~lines THEN 0 ELSE IF byCol THEN rows ELSE cols
   IN /\ got.ret
      /\ got.points = el["points"].n
      /\ got.groups = (IF lines THEN el["groups"].n ELSE 0)
      /\ got.count = cnt
      /\ got.byCol = byCol
      /\ got.row = (IF rows # 0 THEN rows ELSE IF byCol THEN cnt ELSE els)
      /\ got.col = (IF cols # 0 THEN cols ELSE IF byCol THEN els ELSE cnt)

(* ---- points: buffers of coordinates and angles are of the kind asked for, those of normals single ---- *)
ForeignColumnOk(f, kind, c) == c.got = (IF f \in {"nx", "ny", "nz"} \/ (kind = "float" /\ f \in Coordinates \cup Angles) THEN c.s ELSE c.d)

(* ---- images ---- *)
RepPath(r) == CASE r = "vis" -> "visualReferenceRepresentation" [] r = "pin" -> "pinholeRepresentation"
                [] r = "sph" -> "sphericalRepresentation" [] r = "cyl" -> "cylindricalRepresentation"
RepMember(k) == CASE k \in {"vis.jpeg", "pin.jpeg", "sph.jpeg", "cyl.jpeg"} -> "jpegImage"
                  [] k \in {"vis.png", "pin.png", "sph.png", "cyl.png"} -> "pngImage"
                  [] k \in {"vis.mask", "pin.mask", "sph.mask", "cyl.mask"} -> "imageMask"
                  [] k \in {"vis.width", "pin.width", "sph.width", "cyl.width"} -> "imageWidth"
                  [] k \in {"vis.height", "pin.height", "sph.height", "cyl.height"} -> "imageHeight"
                  [] k = "pin.focal" -> "focalLength"
                  [] k \in {"pin.pw", "sph.pw", "cyl.pw"} -> "pixelWidth"
                  [] k \in {"pin.ph", "sph.ph", "cyl.ph"} -> "pixelHeight"
                  [] k = "pin.px" -> "principalPointX"
                  [] k \in {"pin.py", "cyl.py"} -> "principalPointY"
                  [] k = "cyl.radius" -> "radius"
RepKey(r, k) == RepPath(r) \o "/" \o RepMember(k)
RepDefault(k) == IF RepMember(k) \in {"jpegImage", "pngImage", "imageMask", "imageWidth", "imageHeight"} THEN "0" ELSE Zero
DistPath ==
   LET d(n) == "dist:distortion/dist:" \o n IN
   ("dist.number" :> d("CameraNumber")) @@ ("dist.type" :> d("Type"))
   @@ ("dist.k1" :> d("CV_K1")) @@ ("dist.k2" :> d("CV_K2")) @@ ("dist.k3" :> d("CV_K3")) @@ ("dist.k4" :> d("CV_K4"))
   @@ ("dist.k5" :> d("CV_K5")) @@ ("dist.k6" :> d("CV_K6")) @@ ("dist.p1" :> d("CV_P1")) @@ ("dist.p2" :> d("CV_P2"))
   @@ ("dist.cx" :> d("CV_CX")) @@ ("dist.cy" :> d("CV_CY")) @@ ("dist.fx" :> d("CV_FX")) @@ ("dist.fy" :> d("CV_FY"))
   @@ ("dist.height" :> d("CV_HEIGHT")) @@ ("dist.width" :> d("CV_WIDTH"))
DistNone(k) == CASE k \in {"dist.number", "dist.height", "dist.width"} -> "0" [] k = "dist.type" -> "" [] OTHER -> Zero
ImagePaths == Same(ImageTexts \cup {"guid"}) @@ PosePaths
              @@ ("time.v" :> "acquisitionDateTime/dateTimeValue") @@ ("time.a" :> "acquisitionDateTime/isAtomicClockReferenced")
ImageNone(k) == CASE k \in ImageTexts -> "" [] k = "time.v" -> Zero [] k = "time.a" -> "0" [] OTHER -> PoseDefault[k]

ForeignImageOk(el, got) ==
   /\ \A k \in DOMAIN ImagePaths : got[k] = (IF Has(el, ImagePaths[k]) THEN el[ImagePaths[k]].v ELSE ImageNone(k))
   /\ \A r \in Reps : \A k \in RepKeys(r) : got[k] = Value(el, RepKey(r, k), RepDefault(k))
   /\ got["dist"] = (IF Has(el, "dist:distortion") THEN "1" ELSE "0")
   /\ \A k \in Distortion : got[k] = Value(el, DistPath[k], DistNone(k))

HasRepOf(el, r) == Has(el, RepPath(r))
\* the representation whose sizes are told: the visual reference comes first
First(el) == LET q == SelectSeq(<<"vis", "pin", "sph", "cyl">>, LAMBDA r : HasRepOf(el, r)) IN IF q = <<>> THEN "" ELSE q[1]
Content(type) == CASE type = Jpeg -> "jpegImage" [] type = Png -> "pngImage" [] type = Mask -> "imageMask" [] OTHER -> "none"
BlobPath(proj, type) == (CASE proj = 1 -> RepPath("vis") [] proj = 2 -> RepPath("pin") [] proj = 3 -> RepPath("sph")
                           [] proj = 4 -> RepPath("cyl") [] OTHER -> "none") \o "/" \o Content(type)
Main(el, r) == IF Has(el, RepPath(r) \o "/jpegImage") THEN Jpeg
               ELSE IF Has(el, RepPath(r) \o "/pngImage") THEN Png
               ELSE IF Has(el, RepPath(r) \o "/imageMask") THEN Mask ELSE None
ForeignImageSizesOk(el, got) ==
   LET r == First(el) IN
   IF r = "" THEN ~got.ret /\ got.proj = 0 /\ got.type = None /\ got.mask = None /\ got.visual = None
   ELSE LET t == Main(el, r) IN
        /\ got.ret
        /\ got.proj = Projection(r)
        /\ got.type = t
        /\ got.width = el[RepPath(r) \o "/imageWidth"].n
        /\ got.height = el[RepPath(r) \o "/imageHeight"].n
        /\ got.size = (IF t = None THEN 0 ELSE el[BlobPath(Projection(r), t)].n)
        /\ got.mask = (IF Has(el, RepPath(r) \o "/imageMask") THEN Mask ELSE None)
        /\ got.visual = (IF r = "vis" THEN t ELSE None)
=============================================================================
