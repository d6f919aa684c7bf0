----------------------------- MODULE TraceSection -----------------------------
(* Runs of imfit, imfit-mcmc and makeimage on files, extensions and sections *)
EXTENDS Section, Json
VARIABLES c, l
Traces == ndJsonDeserialize("trace.ndjson")
Ev == Traces[c].ev[l]
Abs(n) == IF n < 0 THEN -n ELSE n
Shape(img) == Len(img) = data.h /\ \A y \in 1..Len(img) : Len(img[y]) = data.w
Like(img, want, k) == Shape(img) /\ \A y \in 1..data.h, x \in 1..data.w : Abs(img[y][x] - k * want[y][x]) <= 3
Same == UNCHANGED svars
Outputs ==
  /\ phase = "done" /\ Same
  /\ CASE Ev.e = "model" -> Like(Ev.out, ModelImage, 1)
       \* data minus model, in thousandths
       [] Ev.e = "resid" -> /\ Shape(Ev.out) /\ LET m == ModelImage d == DataImage
                                                IN \A y \in 1..data.h, x \in 1..data.w : Abs(Ev.out[y][x] - (1000 * d[y][x] - m[y][x])) <= 3
       \* after a fit the model is not known; model plus residuals are the data all the same
       [] Ev.e = "sum" -> Like(Ev.out, DataImage, 1000)
       [] Ev.e = "weights" -> noise.there = 1 /\ Like(Ev.out, WeightImage, 1000)
       [] Ev.e = "size" -> Ev.w = data.w /\ Ev.h = data.h
       \* fitted (or sampled) centres, within the limits the user gave, in coordinates of the full image (thousandths)
       [] Ev.e = "centres" -> \A i \in 1..Len(Ev.v) : Ev.v[i].lo - 1 <= Ev.v[i].v /\ Ev.v[i].v <= Ev.v[i].hi + 1
       [] OTHER -> FALSE
TraceInit == SInit /\ c \in 1..Len(Traces) /\ l = 1
TraceNext == /\ l <= Len(Traces[c].ev) /\ l' = l + 1 /\ c' = c
             /\ CASE Ev.e = "sets" -> Describe(Ev.sets)
                  [] phase = "refused" -> (Ev.e \in {"data", "mask", "noise", "psf", "region"} \/ (Ev.e = "stopped" /\ Ev.rc # 0 /\ Ev.crash = 0 /\ Ev.files = 0)) /\ Same
                  [] Ev.e = "data" -> Data(Ev.file, Ev.ref)
                  [] Ev.e = "mask" -> Mask(Ev.file, Ev.ref)
                  [] Ev.e = "noise" -> Noise(Ev.file, Ev.ref)
                  [] Ev.e = "psf" -> Psf(Ev.file, Ev.ref)
                  [] Ev.e = "region" -> Region(Ev.region, Ev.file, Ev.ref)
                  [] Ev.e = "ran" -> Ev.rc = 0 /\ Go /\ phase' = "done"
                  [] Ev.e = "stopped" -> Ev.rc # 0 /\ Ev.crash = 0 /\ Ev.files = 0 /\ Go /\ phase' = "refused"
                  [] OTHER -> Outputs
TraceSpec == TraceInit /\ [][TraceNext]_<<svars, c, l>>
Report == (l = Len(Traces[c].ev) + 1) => PrintT("@@ok " \o ToString(c))
Progress == PrintT("@@at " \o ToString(l - 1))
=============================================================================
