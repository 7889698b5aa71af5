-------------------------------- MODULE Xml --------------------------------
(* What the XML section of a file says about an element, next to what the API says (P03).

   An element found in the XML is [p, type, value, min, max, scale, offset, prec, hetero, len, count];
   an attribute that is not there is "". Numbers are given in a canonical form. Elements that leave
   out an attribute have the default the format defines.                                          *)
EXTENDS Integers, Sequences, TLC

I64Min == "-9223372036854775808"
I64Max == "9223372036854775807"
ZeroText == "0x0p+0"
OneText == "0x1p+0"
DblMax == "0x1.fffffffffffffp+1023"
FltMax == "0x1.fffffep+127"

Or(v, default) == IF v = "" THEN default ELSE v
FloatMax(prec) == IF prec = "single" THEN FltMax ELSE DblMax

Says(x, d) ==
   /\ x.p = d.p
   /\ x.type = d.type
   /\ CASE x.type = "Integer" -> /\ d.value = Or(x.value, "0")
                                 /\ d.min = Or(x.min, I64Min)
                                 /\ d.max = Or(x.max, I64Max)
        [] x.type = "ScaledInteger" -> /\ d.value = Or(x.value, "0")
                                       /\ d.min = Or(x.min, I64Min)
                                       /\ d.max = Or(x.max, I64Max)
                                       /\ d.scale = Or(x.scale, OneText)
                                       /\ d.offset = Or(x.offset, ZeroText)
        [] x.type = "Float" -> /\ d.prec = Or(x.prec, "double")
                               /\ d.value = Or(x.value, ZeroText)
                               /\ d.min = Or(x.min, "-" \o FloatMax(d.prec))
                               /\ d.max = Or(x.max, FloatMax(d.prec))
        [] x.type = "String" -> d.value = x.value
        [] x.type = "Blob" -> d.len = x.len
        [] x.type = "Vector" -> d.hetero = (IF Or(x.hetero, "0") = "0" THEN "no" ELSE "yes")
        [] x.type = "CompressedVector" -> ToString(d.count) = x.count
        [] x.type = "Structure" -> TRUE
        [] OTHER -> FALSE

E57Uri == "http://www.astm.org/COMMIT/E57/2010-e57-v1.0"

\* elements in document order; ns: declared namespaces <<prefix, uri>>; exts: the extensions of the file
XmlOk57(xs, ds, ns, exts) ==
   /\ Len(xs) = Len(ds)
   /\ \A i \in 1..Len(xs) : Says(xs[i], ds[i])
   /\ {ns[i] : i \in 1..Len(ns)} = {exts[i] : i \in 1..Len(exts)} \cup {<<"", E57Uri>>}
=============================================================================
