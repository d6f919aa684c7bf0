------------------------------- MODULE Geometry -------------------------------
(* What every image function promises about its geometry, whatever its radial profile.

   A view of a function is its image with transformed parameter values:
     turn   position angle increased by turn * 90 degrees (gradient rotated, for a plane)
     mirror position angles reversed in sign
     zoom   all lengths multiplied by zoom (1, 2, 5 or 10), inverse lengths divided
     gain   the factor by which brightness must grow: of the intensity parameter, times the length of
            the line of sight for three-dimensional functions
   plus the pixel (x, y) in half pixels that holds the centre.  All views of a function show the same
   brightness at corresponding points, and (sym = 1) the same at opposite points.
   seen: what is known of the function (identity view), by displacement in 1/20 pixel, in thousandths. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES seen

Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE SumOf(_,_,_)
SumOf(f(_), i, n) == IF i > n THEN 0 ELSE f(i) + SumOf(f, i + 1, n)

RECURSIVE Unturn(_,_)
Unturn(d, t) == IF t = 0 THEN d ELSE Unturn(<<d[2], -d[1]>>, t - 1)
Unmirror(d, m) == IF m = 1 THEN <<-d[1], d[2]>> ELSE d
\* opposite points count as one
Half(d, s) == IF s = 1 /\ (d[1] < 0 \/ (d[1] = 0 /\ d[2] < 0)) THEN <<-d[1], -d[2]>> ELSE d
\* the place in the identity view that a displacement (half pixels) of view v corresponds to:
\* the view turned the mirrored function
Place(v, d) == LET u == Unmirror(Unturn(d, v.turn), v.mirror)
               IN Half(<<u[1] * (10 \div v.zoom), u[2] * (10 \div v.zoom)>>, v.sym)
At(v, x, y) == Place(v, <<2 * x - v.x, 2 * y - v.y>>)

\* hole = 1: a profile that diverges at the centre, where the programs cut it off
Known(v, x, y) == LET p == At(v, x, y) IN p \in DOMAIN seen /\ (p = <<0, 0>> => v.hole = 0)
\* values agree up to rounding to thousandths (of both) and tol parts per million
Agree(v, out, val) == LET w == v.gain * val IN Abs(out - w) <= v.gain + 2 + ((Abs(w) \div 100000) * v.tol) \div 10

Explained(v, img) == \A y \in 1..Len(img) : \A x \in 1..Len(img[y]) :
                       Known(v, x, y) => Agree(v, img[y][x], seen[At(v, x, y)])
\* views with gain 1 teach
Learned(v, img) ==
  IF v.gain # 1 THEN seen
  ELSE LET pts == {<<x, y>> : x \in 1..Len(img[1]), y \in 1..Len(img)}
           new == [p \in {At(v, q[1], q[2]) : q \in pts} |->
                     LET q == CHOOSE q \in pts : At(v, q[1], q[2]) = p IN img[q[2]][q[1]]]
       IN seen @@ new
\* an image whose opposite points must agree among themselves
SelfConsistent(v, img) == v.sym = 1 =>
  \A y \in 1..Len(img) : \A x \in 1..Len(img[y]) :
    LET xx == v.x - x   yy == v.y - y
    IN (xx >= 1 /\ xx <= Len(img[y]) /\ yy >= 1 /\ yy <= Len(img)) => Agree([v EXCEPT !.gain = 1], img[y][x], img[yy][xx])

\* every pixel shows a number
Numbers(img) == \A y \in 1..Len(img) : \A x \in 1..Len(img[y]) : img[y][x] # -999999999

GInit == seen = [d \in {} |-> 0]
View(v, img) == Numbers(img) /\ SelfConsistent(v, img) /\ Explained(v, img) /\ seen' = Learned(v, img)

(* Subsampling: a pixel near the centre shows the mean brightness over its area.  The area is known as 10
   by 10 points (a zoom by 10); the mean over other grids of points lies near the mean over these. *)
SubPts == {-9, -7, -5, -3, -1, 1, 3, 5, 7, 9}        \* 1/20 pixel
Area(v, x, y) == {Half(<<10 * (2 * x - v.x) + i, 10 * (2 * y - v.y) + j>>, v.sym) : i \in SubPts, j \in SubPts}
SubKnown(v, x, y) == \A i \in SubPts, j \in SubPts : Half(<<10 * (2 * x - v.x) + i, 10 * (2 * y - v.y) + j>>, v.sym) \in DOMAIN seen
P20(k) == 2 * k - 11
SubMean(v, x, y) ==
  LET g(i, j) == seen[Half(<<10 * (2 * x - v.x) + P20(i), 10 * (2 * y - v.y) + P20(j)>>, v.sym)]
  IN SumOf(LAMBDA i : SumOf(LAMBDA j : g(i, j), 1, 10), 1, 10) \div 100
Spread(v, x, y) ==
  LET vals == {seen[p] : p \in Area(v, x, y)}
      hi == CHOOSE a \in vals : \A b \in vals : b <= a
      lo == CHOOSE a \in vals : \A b \in vals : b >= a
  IN hi - lo
Subsampled(v, img, part) ==
  /\ \A y \in 1..Len(img) : \A x \in 1..Len(img[y]) :
       SubKnown(v, x, y) => Abs(img[y][x] - SubMean(v, x, y)) <= 3 + Spread(v, x, y) \div part
  /\ UNCHANGED seen
=============================================================================
