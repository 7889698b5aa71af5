----------------------------- MODULE MC_Simple -----------------------------
(* Small files: headers that vary in two parts at a time, scans and images in any order, refused calls,
   contents written in pieces. What a reader delivers is what was written.                          *)
EXTENDS Simple

CONSTANTS MaxScans, MaxImages, MaxWrites

\* variants of a part: one member set, or all of them
Variants(p) == {[x \in {k} |-> "v"] : k \in p} \cup {[x \in p |-> "v"]}
Headers1 == {v @@ PartDefault : v \in UNION {Variants(p) : p \in Parts}}
Headers2 == {v @@ h : v \in UNION {Variants(p) : p \in Parts}, h \in Headers1}

\* headers used in longer histories, with the error each must meet
Plain == [k \in {"f.x", "f.in"} |-> "1"] @@ ("guid" :> "g") @@ ScanDefault
Scaled(s) == ("range.type" :> "scaled") @@ ("range.scale" :> s) @@ Plain
Few == {Plain, Scaled("0x1p-1"), Scaled(Zero), ("range.type" :> "int") @@ Plain, ("name" :> "n") @@ Plain}

ImageDefault == All(ImageTexts \cup {"guid", "dist.type"}, "") @@ PoseDefault @@ ("time.v" :> Zero) @@ ("time.a" :> "0")
                @@ All(UNION {RepKeys(r) : r \in Reps}, "0") @@ ("dist" :> "0") @@ All(Distortion \ {"dist.type"}, "0")
Im(r, t, mask) == [h |-> (r \o t :> "2") @@ (r \o ".mask" :> mask) @@ ImageDefault,
                   num |-> (r \o t :> 2) @@ (r \o ".mask" :> IF mask = "0" THEN 0 ELSE 1) @@ [k \in UNION {RepKeys(x) : x \in Reps} |-> 0]]
Images == {Im("vis", ".jpeg", "0"), Im("pin", ".png", "1"), [h |-> ImageDefault, num |-> [k \in {} |-> 0]]}

VARIABLES refused, one
mcvars == <<vars, refused, one>>

\* one header on its own, or a history
Init == /\ scans = <<>> /\ images = <<>> /\ refused = 0
        /\ \/ mode = "single" /\ one \in Headers2
           \/ mode = "write" /\ one = PartDefault
Scan(h) == /\ mode = "write" /\ Len(scans) < MaxScans
           /\ IF HeaderErrs(h) = {} THEN AddScan(h, 1, [range |-> FALSE, angle |-> FALSE, time |-> FALSE]) /\ UNCHANGED refused
              ELSE refused < 1 /\ refused' = refused + 1 /\ UNCHANGED vars
Image(x) == /\ mode = "write" /\ Len(images) < MaxImages
            /\ AddImage(x.h, x.num) /\ UNCHANGED refused
Piece(i, w) == /\ mode = "write" /\ Len(images[i].ws) < MaxWrites
               /\ Exists(images[i], Projection(RepOf(images[i].h)), w.type) /\ TransferErrs(images[i], w.type, w.start, w.count) = {}
               /\ WriteImage(i, w) /\ UNCHANGED refused
Close == mode = "write" /\ mode' = "closed" /\ UNCHANGED <<scans, images, refused>>
Next == /\ \/ \E h \in Few : Scan(h)
           \/ \E x \in Images : Image(x)
           \/ \E i \in 1..Len(images), t \in {Jpeg, Png, Mask}, s \in 0..1, c \in 1..2, v \in 1..2 :
                 Piece(i, [type |-> t, start |-> s, count |-> c, v |-> v])
           \/ Close
        /\ UNCHANGED one
Spec == Init /\ [][Next]_mcvars

\* every part is delivered as it was written, whatever the other parts are
RoundTrip == mode = "single" => Delivered(one) = one
Independent == mode = "single" => LET e == DOMAIN Elements(one) IN \A p \in Parts : (\A k \in p : one[k] = PartDefault[k]) => p \notin e
\* nothing of a refused scan is left; only scans without errors are in the file
NoLeftovers == \A i \in 1..Len(scans) : HeaderErrs(scans[i].h) = {}
ReadsBack == \A i \in 1..Len(scans) : ScanOk(scans[i], scans[i].h, ("pointCount" :> "1") @@ scans[i].h, [k \in ILimits \cup {"range.min", "range.max"} |-> 0])
\* a content read in one piece or byte by byte
Contents == \A i \in 1..Len(images) : \A t \in {Jpeg, Png, Mask} :
               LET n == SizeOf(images[i], t)
                   byte(p) == <<ByteAt(images[i].ws, t, p), 1>>
               IN /\ RunsFrom([p \in 1..n |-> byte(p - 1)], 1, 0, images[i].ws, t)
                  /\ \A p \in 0..n - 1 : RunsFrom(<<byte(p)>>, 1, p, images[i].ws, t)
                  /\ n = 2 => (RunsFrom(<<<<1, 2>>>>, 1, 0, images[i].ws, t) <=> (byte(0)[1] = 1 /\ byte(1)[1] = 1))
ImagesBack == \A i \in 1..Len(images) : ImageOk(images[i].h, images[i].h)
=============================================================================
