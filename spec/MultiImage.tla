------------------------------ MODULE MultiImage ------------------------------
(* One model seen in several images (multimfit, makemultimages).
   The model - function sets at positions, each a sequence of functions - is stated in the frame of the first (reference)
   image.  Every further image says how it differs: its pixels are s times those of the reference image, its y axis is
   rotated by a, its counts are f times larger, and its first function set is at (x, y) of its own frame.  View gives the
   model as that image sees it; functions local to an image are in its own frame already.
   All programs handle one flat parameter vector: the descriptions of the further images, the model, the local functions;
   Flat and the Take operators are that layout.
   Values are integers in units of 10^-4; s and f are fractions <<n, d>>; angles are indices into Turns. *)
EXTENDS Integers, Sequences, TLC
VARIABLES model, images,          \* what there is
          shown                   \* last observation
mvars == <<model, images, shown>>

\* angle in 10^-4 degrees and its cosine and sine in tenths (3-4-5 triangles, so all positions are exact)
Turns == << [a |-> 0, c |-> 10, s |-> 0], [a |-> 900000, c |-> 0, s |-> 10], [a |-> -900000, c |-> 0, s |-> -10],
            [a |-> 1800000, c |-> -10, s |-> 0], [a |-> 531301, c |-> 6, s |-> 8], [a |-> -368699, c |-> 8, s |-> -6],
            [a |-> 368699, c |-> 8, s |-> 6] >>

(* What the parameters of each function are: an Angle from the y axis; a Length; a Rate per length; an Intensity (2-D,
   3-D or total); a slope along x or y (Sx, Sy: they follow each other); or a Pure number *)
Kind(f) ==
  CASE f = "BrokenExponential" -> <<"A","P","I","L","L","L","R">>
    [] f = "BrokenExponential2D" -> <<"A","I","L","L","L","R","L">>
    [] f = "BrokenExponentialDisk3D" -> <<"A","P","I","L","L","L","R","P","L">>
    [] f = "Core-Sersic" -> <<"A","P","P","I","L","L","P","P">>
    [] f = "DattathriPeanut3D" -> <<"A","P","P","I","L","P","P","L","L","L","P","P">>
    [] f = "EdgeOnDisk" -> <<"A","I","L","P","L">>
    [] f = "EdgeOnRing" -> <<"A","I","L","L","L">>
    [] f = "EdgeOnRing2Side" -> <<"A","I","L","L","L","L">>
    [] f = "Exponential" -> <<"A","P","I","L">>
    [] f = "ExponentialDisk3D" -> <<"A","P","I","L","P","L">>
    [] f = "Exponential_GenEllipse" -> <<"A","P","P","I","L">>
    [] f = "FerrersBar2D" -> <<"A","P","P","P","I","L">>
    [] f = "FerrersBar3D" -> <<"A","P","P","I","L","P","P","P">>
    [] f = "FlatBar" -> <<"A","P","P","I","L","L","L","R">>
    [] f = "FlatSky" -> <<"I">>
    [] f = "Gaussian" -> <<"A","P","I","L">>
    [] f = "GaussianRing" -> <<"A","P","I","L","L">>
    [] f = "GaussianRing2Side" -> <<"A","P","I","L","L","L">>
    [] f = "GaussianRing3D" -> <<"A","P","P","P","I","L","L","L">>
    [] f = "GaussianRingAz" -> <<"A","P","I","P","L","L">>
    [] f = "ModifiedKing" -> <<"A","P","I","L","L","P">>
    [] f = "ModifiedKing2" -> <<"A","P","I","L","P","P">>
    [] f = "Moffat" -> <<"A","P","I","L","P">>
    [] f = "PointSource" -> <<"I">>
    [] f = "PointSourceRot" -> <<"A","I">>
    [] f = "Sersic" -> <<"A","P","P","I","L">>
    [] f = "Sersic_GenEllipse" -> <<"A","P","P","P","I","L">>
    [] f = "TiltedSkyPlane" -> <<"I","Sx","Sy">>
    [] OTHER -> <<>>

Reference == [s |-> <<1, 1>>, a |-> 1, f |-> <<1, 1>>]

(*************** what an image sees ***************)
Times(v, r) == (v * r[1]) \div r[2]
Over(v, r) == (v * r[2]) \div r[1]
\* a vector of the reference frame in a frame turned by t
Turn(dx, dy, t) == <<(dx * Turns[t].c + dy * Turns[t].s) \div 10, (dy * Turns[t].c - dx * Turns[t].s) \div 10>>
Seen(k, p, i, im) ==
  CASE k = "A" -> p[i] - Turns[im.a].a
    [] k = "I" -> Times(p[i], im.f)
    [] k = "L" -> Over(p[i], im.s)
    [] k = "R" -> Times(p[i], im.s)
    [] k = "Sx" -> Times(Times(Turn(p[i], p[i + 1], im.a)[1], im.s), im.f)
    [] k = "Sy" -> Times(Times(Turn(p[i - 1], p[i], im.a)[2], im.s), im.f)
    [] OTHER -> p[i]
SeenFunc(f, im) == [f |-> f.f, p |-> [i \in 1..Len(f.p) |-> Seen(Kind(f.f)[i], f.p, i, im)]]
SeenSet(S, k, im) ==
  LET d == Turn(S[k].x - S[1].x, S[k].y - S[1].y, im.a) IN
  [x |-> im.x + Over(d[1], im.s), y |-> im.y + Over(d[2], im.s), fs |-> [j \in 1..Len(S[k].fs) |-> SeenFunc(S[k].fs[j], im)]]
\* image n of the images I sees the model S as
View(S, I, n) == (IF n = 1 THEN S ELSE [k \in 1..Len(S) |-> SeenSet(S, k, I[n])]) \o I[n].local

(*************** the flat vector ***************)
RECURSIVE Cat(_, _)
Cat(f, n) == IF n = 0 THEN <<>> ELSE Cat(f, n - 1) \o f[n]
FlatSet(s) == <<s.x, s.y>> \o Cat([j \in 1..Len(s.fs) |-> s.fs[j].p], Len(s.fs))
FlatSets(S) == Cat([k \in 1..Len(S) |-> FlatSet(S[k])], Len(S))
FlatImage(im) == <<im.s, im.a, im.f, im.x, im.y>>
Flat(S, I) == Cat([n \in 1..(Len(I) - 1) |-> FlatImage(I[n + 1])], Len(I) - 1)
              \o FlatSets(S) \o Cat([n \in 1..Len(I) |-> FlatSets(I[n].local)], Len(I))
\* read a vector back by position
Desc(v, n) == LET b == 5 * (n - 2) IN [s |-> v[b + 1], a |-> v[b + 2], f |-> v[b + 3], x |-> v[b + 4], y |-> v[b + 5]]
RECURSIVE TakeSets(_, _, _)
TakeSets(v, at, shape) ==
  IF shape = <<>> THEN <<>>
  ELSE LET n == Len(shape[1])
           RECURSIVE start(_)
           start(j) == IF j = 1 THEN at + 2 ELSE start(j - 1) + Len(Kind(shape[1][j - 1]))
           fs == [j \in 1..n |-> [f |-> shape[1][j], p |-> SubSeq(v, start(j), start(j) + Len(Kind(shape[1][j])) - 1)]]
       IN <<[x |-> v[at], y |-> v[at + 1], fs |-> fs]>> \o TakeSets(v, start(n + 1), Tail(shape))
Shape(S) == [k \in 1..Len(S) |-> [j \in 1..Len(S[k].fs) |-> S[k].fs[j].f]]
RECURSIVE Count(_, _)
Count(names, n) == IF n = 0 THEN 0 ELSE Count(names, n - 1) + Len(Kind(names[n]))
RECURSIVE Size(_)
Size(shape) == IF shape = <<>> THEN 0 ELSE 2 + Count(shape[1], Len(shape[1])) + Size(Tail(shape))
RECURSIVE LocalStart(_, _, _)
LocalStart(I, n, at) == IF n = 1 THEN at ELSE LocalStart(I, n - 1, at) + Size(Shape(I[n - 1].local))
\* image n, from the vector and the shapes of the model alone
Extract(v, S, I, n) ==
  LET at == 5 * (Len(I) - 1) + 1
      own == TakeSets(v, at, Shape(S))
      loc == TakeSets(v, LocalStart(I, n, at + Size(Shape(S))), Shape(I[n].local))
  IN (IF n = 1 THEN own ELSE [k \in 1..Len(own) |-> SeenSet(own, k, Desc(v, n))]) \o loc

(*************** observations ***************)
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b) == Abs(a - b) <= 2 + Abs(b) \div 100000          \* values are printed with 6 digits
Shifted(S, ox, oy) == [k \in 1..Len(S) |-> [S[k] EXCEPT !.x = @ + ox, !.y = @ + oy]]
SameModel(A, B) ==
  /\ Len(A) = Len(B)
  /\ \A k \in 1..Len(A) : /\ Near(A[k].x, B[k].x) /\ Near(A[k].y, B[k].y) /\ Len(A[k].fs) = Len(B[k].fs)
                          /\ \A j \in 1..Len(A[k].fs) : /\ A[k].fs[j].f = B[k].fs[j].f
                                                        /\ Len(A[k].fs[j].p) = Len(B[k].fs[j].p)
                                                        /\ \A i \in 1..Len(A[k].fs[j].p) : Near(A[k].fs[j].p[i], B[k].fs[j].p[i])
MMInit == model = <<>> /\ images = <<>> /\ shown = "nothing"
AddSet(s) == model' = Append(model, s) /\ UNCHANGED <<images, shown>>
AddImage(im) == images' = Append(images, im) /\ UNCHANGED <<model, shown>>
\* makemultimages' image n against makeimage's image of the view: largest difference but for two pixels, in 10^-6 of the largest pixel
ShowImage(n, view, ppm) == /\ n \in 1..Len(images) /\ view = View(model, images, n) /\ ppm \in 0..20
                           /\ shown' = "image" /\ UNCHANGED <<model, images>>
\* the parameters saved for image n, in the coordinates of the image its section (ox, oy) was taken from
ShowParams(n, saved) == /\ n \in 1..Len(images)
                        /\ SameModel(saved, Shifted(View(model, images, n), images[n].ox, images[n].oy))
                        /\ shown' = "params" /\ UNCHANGED <<model, images>>
\* the statistic of each image alone and of all together, in 10^-8 of the latter; numbers of valid pixels and free parameters
RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN 0 ELSE Sum(s, n - 1) + s[n]
ShowStat(parts, und, wund, views, whole, pix, free, dof) ==
  /\ Len(parts) = Len(images) /\ \A n \in 1..Len(images) : views[n] = View(model, images, n)
  /\ wund = (\E n \in 1..Len(und) : und[n])                   \* undefined if, and only if, one of them is
  /\ ~wund => Abs(Sum(parts, Len(parts)) - whole) <= 3000                        \* angles and positions are rounded in views
  /\ dof.there => dof.v = Sum(pix, Len(pix)) - free
  /\ shown' = "stat" /\ UNCHANGED <<model, images>>
\* run again from the saved reference model and image descriptions: the same statistic, in 10^-8
ShowAgain(whole) == /\ shown = "stat" /\ Abs(whole - 100000000) <= 2000 /\ shown' = "again" /\ UNCHANGED <<model, images>>
(* a joint fit: each parameter of the vector with its freedom before and after.  Pixel scale and rotation of an image are
   free only if limits are given; anything else unless said to be fixed *)
Free(p) == IF p.shy THEN p.lim # <<>> ELSE ~p.fixed
ShowFit(ps, start, end, checked) ==
  /\ \A i \in 1..Len(ps) : LET p == ps[i] IN
       /\ ~Free(p) => Near(p.after, p.before)
       /\ (Free(p) /\ p.lim # <<>>) => (p.after >= p.lim[1] - 2 - Abs(p.lim[1]) \div 100000 /\ p.after <= p.lim[2] + 2 + Abs(p.lim[2]) \div 100000)
  /\ end <= start + 12                     \* no worse than where it started
  /\ Abs(checked - end) <= 3 + Abs(end) \div 40                   \* and what it says it is
  /\ shown' = "fit" /\ UNCHANGED <<model, images>>
(* a joint bootstrap after the fit: the saved rows hold the whole vector, in the coordinates of the images the sections
   were taken from, like the best-fit values; the summary tells every parameter once *)
InLimits(v, p) == v >= p.lim[1] - 2 - Abs(p.lim[1]) \div 100000 /\ v <= p.lim[2] + 2 + Abs(p.lim[2]) \div 100000
Drawn(v, p) == IF ~Free(p) THEN Near(v, p.after) ELSE p.lim # <<>> => InLimits(v, p)
ShowBoot(ps, asked, done, names, rows, summary) ==
  /\ shown = "fit" /\ done \in 0..asked /\ Len(rows) = done
  /\ Len(ps) = Len(FlatSets(model)) + Len(Cat([n \in 1..Len(images) |-> FlatSets(images[n].local)], Len(images))) + 5 * (Len(images) - 1)
  /\ names = Len(ps)
  /\ \A r \in 1..Len(rows) : Len(rows[r]) = Len(ps) /\ \A i \in 1..Len(ps) : Drawn(rows[r][i], ps[i])
  /\ IF done < 3 THEN summary = <<>>
     ELSE /\ Len(summary) = Len(ps)
          /\ \A i \in 1..Len(ps) : LET s == summary[i] IN
               /\ s.fixed = ~Free(ps[i]) /\ Near(s.v, ps[i].after)
               /\ (Free(ps[i]) /\ ps[i].lim # <<>>) => (InLimits(s.low, ps[i]) /\ InLimits(s.high, ps[i]))
  /\ shown' = "boot" /\ UNCHANGED <<model, images>>
=============================================================================
