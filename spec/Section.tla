------------------------------- MODULE Section -------------------------------
(* Which pixels a program works on, and in which coordinates it speaks about them.

   Images are FITS files: sequences of header-data units [kind, w, h] (kind "image" is a 2-D image; "null", "line",
   "cube" and "table" are not).  A reference to an image is a file together with [ext, sec, xs, ys]: ext = -1 when no
   extension number is given, sec = 1 when a section is given, xs/ys = <<lo, hi>> or <<>> for "*".
   The data are selected first, then (optionally) mask, noise, PSF and oversampled regions; each selection succeeds or
   the program is refused.  Function-set centres and regions are given in coordinates of the FULL data image, whatever
   section is fitted.  What file contains which pixel is known by a formula (Pix), so that every output tells where
   its pixels came from.  Centres in half pixels, images in thousandths, as in ImageOps. *)
EXTENDS ImageOps

VARIABLES
  phase,    \* "data", "aux", "done", "refused"
  data, mask, noise,   \* selections [there, hdu, x0, y0, w, h]
  psf,      \* ImageOps PSF (pixels already selected)
  regions,  \* oversampled regions, in coordinates of the full image
  sets      \* function sets, in coordinates of the full image
svars == <<phase, data, mask, noise, psf, regions, sets>>

Absent == [there |-> 0, hdu |-> 0, x0 |-> 0, y0 |-> 0, w |-> 0, h |-> 0]

Pix(role, hdu, x, y) ==
  CASE role = "data" -> 3000 * hdu + 100 * x + y
    [] role = "mask" -> IF (x + 2 * y + hdu) % 5 = 0 THEN 1 ELSE 0
    [] role = "noise" -> 1 + ((3 * x + 5 * y + 7 * hdu) % 11)
    [] OTHER -> ((2 * x + 3 * y + hdu) % 4) + (IF x = 2 /\ y = 3 THEN 4 ELSE 1)

-----------------------------------------------------------------------------
\* one dimension of a section
Lo(r) == IF r = <<>> THEN 1 ELSE r[1]
Hi(r, n) == IF r = <<>> THEN n ELSE r[2]
Within(r, n) == r = <<>> \/ (r[1] >= 1 /\ r[2] <= n /\ r[1] <= r[2])

IsImage(file, hdu) == hdu \in 1..Len(file) /\ file[hdu].kind = "image"
Good(file, ref, hdu) ==
  IsImage(file, hdu) /\ (ref.sec = 1 => Within(ref.xs, file[hdu].w) /\ Within(ref.ys, file[hdu].h))
Cut(file, ref, hdu) ==
  IF ref.sec = 0 THEN [there |-> 1, hdu |-> hdu, x0 |-> 1, y0 |-> 1, w |-> file[hdu].w, h |-> file[hdu].h]
  ELSE [there |-> 1, hdu |-> hdu, x0 |-> Lo(ref.xs), y0 |-> Lo(ref.ys),
        w |-> Hi(ref.xs, file[hdu].w) - Lo(ref.xs) + 1, h |-> Hi(ref.ys, file[hdu].h) - Lo(ref.ys) + 1]
\* the HDU meant; 0-based in the reference, the primary one when none is given
Meant(ref) == IF ref.ext < 0 THEN 1 ELSE ref.ext + 1
(* cfitsio looks a section up in the first image of a file whose primary HDU is empty: a program may do the same
   or refuse. *)
Fallback(file, ref) ==
  IF ref.ext < 0 /\ ref.sec = 1 /\ file[1].kind = "null" /\ \E i \in 2..Len(file) : IsImage(file, i)
  THEN {CHOOSE i \in 2..Len(file) : IsImage(file, i) /\ \A j \in 2..(i - 1) : ~IsImage(file, j)} ELSE {}
\* what a reference may select; the empty set: it must be refused
Selections(file, ref) ==
  {Cut(file, ref, i) : i \in {j \in {Meant(ref)} \cup Fallback(file, ref) : Good(file, ref, j)}}
MayRefuse(file, ref) == ~Good(file, ref, Meant(ref))

Value(role, s, x, y) == Pix(role, s.hdu, s.x0 + x - 1, s.y0 + y - 1)
PsfOf(role, s) == [w |-> s.w, h |-> s.h, norm |-> 1, v |-> [r \in 1..s.h |-> [c \in 1..s.w |-> Value(role, s, c, r)]]]

-----------------------------------------------------------------------------
SInit == phase = "data" /\ data = Absent /\ mask = Absent /\ noise = Absent /\ psf = NoPsf /\ regions = <<>> /\ sets = <<>>

Describe(ss) == phase = "data" /\ sets' = ss /\ UNCHANGED <<phase, data, mask, noise, psf, regions>>
Refuse == phase' = "refused" /\ UNCHANGED <<data, mask, noise, psf, regions, sets>>
Data(file, ref) ==
  /\ phase = "data"
  /\ \/ \E s \in Selections(file, ref) : data' = s /\ phase' = "aux" /\ UNCHANGED <<mask, noise, psf, regions, sets>>
     \/ MayRefuse(file, ref) /\ Refuse
Fits(s) == s.w = data.w /\ s.h = data.h
Mask(file, ref) ==
  /\ phase = "aux" /\ mask.there = 0
  /\ \/ \E s \in Selections(file, ref) : Fits(s) /\ mask' = s /\ UNCHANGED <<phase, data, noise, psf, regions, sets>>
     \/ (MayRefuse(file, ref) \/ \E s \in Selections(file, ref) : ~Fits(s)) /\ Refuse
Noise(file, ref) ==
  /\ phase = "aux" /\ noise.there = 0
  /\ \/ \E s \in Selections(file, ref) : Fits(s) /\ noise' = s /\ UNCHANGED <<phase, data, mask, psf, regions, sets>>
     \/ (MayRefuse(file, ref) \/ \E s \in Selections(file, ref) : ~Fits(s)) /\ Refuse
Psf(file, ref) ==
  /\ phase = "aux" /\ psf.w = 0
  /\ \/ \E s \in Selections(file, ref) : psf' = PsfOf("psf", s) /\ UNCHANGED <<phase, data, mask, noise, regions, sets>>
     \/ MayRefuse(file, ref) /\ Refuse
\* no pixel of the data in a region: nothing to do
Outside(r) == r.x2 < data.x0 \/ r.y2 < data.y0 \/ r.x1 > data.x0 + data.w - 1 \/ r.y1 > data.y0 + data.h - 1
Region(r, file, ref) ==
  /\ phase = "aux"
  /\ \/ \E s \in Selections(file, ref) :
           /\ ~Outside(r)
           /\ regions' = Append(regions, [x1 |-> r.x1, x2 |-> r.x2, y1 |-> r.y1, y2 |-> r.y2, s |-> r.s, psf |-> PsfOf("opsf", s), raw |-> 0])
           /\ UNCHANGED <<phase, data, mask, noise, psf, sets>>
     \/ (MayRefuse(file, ref) \/ Outside(r)) /\ Refuse
\* everything selected; with all pixels masked there is nothing to fit
Masked(x, y) == mask.there = 1 /\ Value("mask", mask, x, y) = 1
NothingLeft == \A y \in 1..data.h, x \in 1..data.w : Masked(x, y)
Go == phase = "aux" /\ phase' = (IF NothingLeft THEN "refused" ELSE "done") /\ UNCHANGED <<data, mask, noise, psf, regions, sets>>

-----------------------------------------------------------------------------
\* full-image coordinates to those of the selected pixels
Dim == [nx |-> data.w, ny |-> data.h]
OffX == data.x0 - 1
OffY == data.y0 - 1
Local(ss) == [i \in 1..Len(ss) |-> [x |-> ss[i].x - 2 * OffX, y |-> ss[i].y - 2 * OffY, fns |-> ss[i].fns]]
LocalRegions == [i \in 1..Len(regions) |-> [regions[i] EXCEPT !.x1 = @ - OffX, !.x2 = @ - OffX, !.y1 = @ - OffY, !.y2 = @ - OffY]]

ModelImage == ImageOf(Flat(Local(sets)), psf, LocalRegions, Dim)
DataImage == [y \in 1..data.h |-> [x \in 1..data.w |-> Value("data", data, x, y)]]
WeightImage == [y \in 1..data.h |-> [x \in 1..data.w |-> IF Masked(x, y) THEN 0 ELSE Value("noise", noise, x, y)]]
=============================================================================
