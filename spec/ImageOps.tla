------------------------------ MODULE ImageOps ------------------------------
(* What a model image is: components, PSF convolution, oversampled regions; no state.

   All quantities are integers: coordinates are counted in units of 1/(2s) of a pixel (s = sampling of
   the grid), centres in half pixels, intensities as rationals num/den, and rendered pixel values are
   reported in thousandths (Milli).
   A function set is [x, y, fns]; a PSF [w, h, norm, v] with v[row][col], w = 0 meaning none; an
   oversampled region [x1, x2, y1, y2, s, psf, raw].  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoPsf == [w |-> 0, h |-> 0, norm |-> 1, v |-> <<>>]
Nothing == [kind |-> "none"]

-----------------------------------------------------------------------------
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
RECURSIVE SumSeqOf(_,_,_)
SumSeqOf(f(_), i, n) == IF i > n THEN 0 ELSE f(i) + SumSeqOf(f, i + 1, n)

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

PsfSum(p) == SumSeqOf(LAMBDA r : SumSeqOf(LAMBDA c : p.v[r][c], 1, p.w), 1, p.h)
PsfNorm(p) == IF p.w = 0 \/ p.norm = 0 THEN 1 ELSE PsfSum(p)
\* the PSF's centre (0-based column, row): the pixel that keeps the light where it was
CtrX(p) == p.w \div 2
CtrY(p) == p.h \div 2

\* All components, flattened, each with the centre of its own set
Flat(ss) ==
  LET RECURSIVE f(_)
      f(i) == IF i > Len(ss) THEN <<>>
              ELSE [k \in 1..Len(ss[i].fns) |-> [x |-> ss[i].x, y |-> ss[i].y, fn |-> ss[i].fns[k]]] \o f(i + 1)
  IN f(1)

IsPoint(cmp) == cmp.fn.k = "ptsrc"

(* Surface brightness of one (non-point) component at (X, Y) [units 1/(2s) pixel], times 2s *)
Bright(cmp, X, Y, s) ==
  CASE cmp.fn.k = "flat"  -> cmp.fn.a * 2 * s
    [] cmp.fn.k = "const" -> cmp.fn.a * 2 * s
    [] cmp.fn.k = "tilt"  -> cmp.fn.a * 2 * s + cmp.fn.mx * (X - s * cmp.x) + cmp.fn.my * (Y - s * cmp.y)
    [] cmp.fn.k = "spike" -> IF X = s * cmp.x /\ Y = s * cmp.y THEN cmp.fn.a * 2 * s ELSE 0
    [] OTHER -> 0

\* Surface brightness of a sequence of components
BrightAll(cs, X, Y, s) == SumSeqOf(LAMBDA i : Bright(cs[i], X, Y, s), 1, Len(cs))

(* A point source is the PSF itself, centred on the source: value, times 2s*PsfNorm, at (X,Y) of a
   grid with sampling s, for a PSF p with the same sampling.  Only sources that sit on the grid. *)
Point(cmp, X, Y, s, p) ==
  LET dx == X - s * cmp.x   dy == Y - s * cmp.y         \* in units of 1/(2s)
      c == dx \div 2 + CtrX(p) + 1   r == dy \div 2 + CtrY(p) + 1
  IN IF dx % 2 = 0 /\ dy % 2 = 0 /\ c >= 1 /\ c <= p.w /\ r >= 1 /\ r <= p.h
     THEN 2 * s * cmp.fn.a * p.v[r][c] * s * s
     ELSE 0
\* raw = 0: the source's flux is conserved.  raw = 1: the known deviation of the implementation inside
\* oversampled regions (known-findings: pointsource-in-region): the PSF image as given, neither
\* normalized nor rescaled to subpixels.
PointAll(cs, X, Y, s, p, raw) ==
  SumSeqOf(LAMBDA i : IF IsPoint(cs[i])
    THEN (IF raw = 0 THEN Point(cs[i], X, Y, s, p) ELSE (Point(cs[i], X, Y, s, p) \div (s * s)) * PsfNorm(p))
    ELSE 0, 1, Len(cs))

(* Convolution at a grid point: light arriving from all around, also from outside the image *)
Conv(M(_,_), X, Y, p) ==
  IF p.w = 0 THEN M(X, Y)
  ELSE SumSeqOf(LAMBDA r : SumSeqOf(LAMBDA c :
          p.v[r][c] * M(X - 2 * (c - 1 - CtrX(p)), Y - 2 * (r - 1 - CtrY(p))), 1, p.w), 1, p.h)

\* numerator and denominator of the convolved brightness at (X,Y) on a grid with sampling s
GridNum(cs, X, Y, s, p, raw) ==
  LET ext == SelectSeq(cs, LAMBDA q : ~ IsPoint(q))
      M(a, b) == BrightAll(ext, a, b, s)
  IN Conv(M, X, Y, p) + (IF p.w = 0 THEN 0 ELSE PointAll(cs, X, Y, s, p, raw))
GridDen(s, p) == 2 * s * PsfNorm(p)

\* A region restricted to the image
Clip(rg, d) == [rg EXCEPT !.x1 = Max(1, rg.x1), !.y1 = Max(1, rg.y1), !.x2 = Min(d.nx, rg.x2), !.y2 = Min(d.ny, rg.y2)]
Inside(rg, x, y) == x >= rg.x1 /\ x <= rg.x2 /\ y >= rg.y1 /\ y <= rg.y2

\* index of the region that decides pixel (x,y): the last one given; 0 = none
Owner(rgs, d, x, y) ==
  LET in == {i \in 1..Len(rgs) : Inside(Clip(rgs[i], d), x, y)}
  IN IF in = {} THEN 0 ELSE CHOOSE i \in in : \A j \in in : j <= i

(* Mean over the s*s subpixels of one pixel; subpixel j of pixel x is centred at x + (2j+1)/(2s) - 1/2 *)
SubNum(cs, x, y, rg) ==
  SumSeqOf(LAMBDA j : SumSeqOf(LAMBDA i :
     GridNum(cs, 2 * rg.s * x + (2 * i - 1) - rg.s, 2 * rg.s * y + (2 * j - 1) - rg.s, rg.s, rg.psf, rg.raw), 1, rg.s), 1, rg.s)
SubDen(rg) == GridDen(rg.s, rg.psf) * rg.s * rg.s

Milli(num, den) == (num \div den) * 1000 + ((num % den) * 1000) \div den

\* pixel value of a sequence of components, in thousandths
Pixel(cs, p, rgs, d, x, y) ==
  LET o == Owner(rgs, d, x, y)
  IN IF o = 0 THEN Milli(GridNum(cs, 2 * x, 2 * y, 1, p, 0), GridDen(1, p))
     ELSE Milli(SubNum(cs, x, y, rgs[o]), SubDen(rgs[o]))

\* image: rows from the bottom, pixels from the left
ImageOf(cs, p, rgs, d) == [y \in 1..d.ny |-> [x \in 1..d.nx |-> Pixel(cs, p, rgs, d, x, y)]]

=============================================================================
