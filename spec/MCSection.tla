------------------------------ MODULE MCSection ------------------------------
(* Small files and all references to them *)
EXTENDS Section, Json
CONSTANTS Emit, Rich
VARIABLES hist
I(w, h) == [kind |-> "image", w |-> w, h |-> h]
K(k) == [kind |-> k, w |-> 4, h |-> 3]
Files == {<<I(4, 3)>>, <<K("null"), I(4, 3)>>, <<I(5, 4), I(4, 3)>>, <<I(4, 3), K("cube"), I(3, 5)>>, <<K("line"), I(4, 3)>>, <<K("cube")>>, <<I(4, 4), K("table"), I(4, 3)>>}
Xs == {<<>>, <<1, 3>>, <<2, 4>>, <<3, 3>>, <<2, 6>>}
Ys == {<<>>, <<1, 2>>, <<2, 3>>, <<2, 5>>}
Whole(e) == [ext |-> e, sec |-> 0, xs |-> <<>>, ys |-> <<>>]
Sec(e, x, y) == [ext |-> e, sec |-> 1, xs |-> x, ys |-> y]
Refs == {Whole(e) : e \in -1..3} \cup {Sec(e, x, y) : e \in -1..3, x \in Xs, y \in Ys}
AuxRefs == {Whole(-1), Whole(1), Sec(-1, <<1, 3>>, <<2, 3>>), Sec(-1, <<2, 4>>, <<>>), Sec(1, <<>>, <<1, 2>>), Sec(2, <<1, 3>>, <<2, 3>>)}
AuxFiles == {<<I(4, 3)>>, <<I(5, 4), I(4, 3)>>, <<I(4, 4), K("table"), I(3, 3)>>}
Spike(a) == [k |-> "spike", a |-> a]
Tilt(a, u, v) == [k |-> "tilt", a |-> a, mx |-> u, my |-> v]
Models == {<<[x |-> 6, y |-> 4, fns |-> <<Spike(12)>>]>>, <<[x |-> 4, y |-> 6, fns |-> <<Tilt(30, 2, -3), Spike(7)>>], [x |-> 3, y |-> 5, fns |-> <<Tilt(5, 1, 4)>>]>>}
PsfRefs == {Whole(-1), Sec(0, <<2, 4>>, <<1, 2>>)}
Rgs == {[x1 |-> 2, x2 |-> 3, y1 |-> 2, y2 |-> 3, s |-> 2], [x1 |-> 1, x2 |-> 6, y1 |-> 3, y2 |-> 3, s |-> 3]}

Log(e) == hist' = Append(hist, e)
MCInit == SInit /\ hist = <<>>
Next ==
  \/ /\ hist = <<>> /\ \E m \in Models : Describe(m) /\ Log([e |-> "sets", sets |-> m])
  \/ /\ Len(hist) = 1 /\ \E f \in Files, r \in Refs : Data(f, r) /\ Log([e |-> "data", file |-> f, ref |-> r])
  \/ /\ Len(hist) = 2 /\ \E f \in AuxFiles, r \in AuxRefs : Mask(f, r) /\ Log([e |-> "mask", file |-> f, ref |-> r])
  \/ /\ Len(hist) = 3 /\ \E f \in AuxFiles, r \in AuxRefs : Noise(f, r) /\ Log([e |-> "noise", file |-> f, ref |-> r])
  \/ /\ Rich /\ Len(hist) = 4 /\ \E r \in PsfRefs : Psf(<<I(4, 3)>>, r) /\ Log([e |-> "psf", file |-> <<I(4, 3)>>, ref |-> r])
  \/ /\ Rich /\ Len(hist) \in 4..5 /\ regions = <<>> /\ \E g \in Rgs : Region(g, <<I(3, 3)>>, Whole(-1)) /\ Log([e |-> "region", region |-> g, file |-> <<I(3, 3)>>, ref |-> Whole(-1)])
  \/ /\ phase = "aux" /\ Go /\ UNCHANGED hist
MCSpec == MCInit /\ [][Next]_<<svars, hist>>

\* refused once and for all, and only for a reason
Reasons == phase = "refused" =>
  LET h == hist[Len(hist)] IN
  \/ MayRefuse(h.file, h.ref)
  \/ NothingLeft
  \/ h.e = "region" /\ Outside(h.region)
  \/ h.e \in {"mask", "noise"} /\ \E s \in Selections(h.file, h.ref) : s.w # data.w \/ s.h # data.h
\* the parts fit together
SameSize == (phase \in {"aux", "done"}) => (mask.there = 1 => Fits(mask)) /\ (noise.there = 1 => Fits(noise))
\* the model of a section is that section of the model of the whole image
Whole0 == [data EXCEPT !.x0 = 1, !.y0 = 1, !.w = data.x0 + data.w - 1, !.h = data.y0 + data.h - 1]
CropOfWhole ==
  phase = "done" =>
    LET full == ImageOf(Flat(sets), psf, regions, [nx |-> Whole0.w, ny |-> Whole0.h])
        part == ModelImage
    IN \A y \in 1..data.h, x \in 1..data.w : part[y][x] = full[y + OffY][x + OffX]
\* every selected pixel is one of the file
InFile == phase = "done" => \A y \in 1..data.h, x \in 1..data.w : DataImage[y][x] = Pix("data", data.hdu, x + OffX, y + OffY)
Gen == (Emit /\ phase \in {"done", "refused"}) => PrintT("@@case " \o ToJson([ev |-> hist]))
=============================================================================
