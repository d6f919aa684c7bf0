------------------------------- MODULE MCImage -------------------------------
(* Exhaustive exploration of Image for small models; every rendered model is printed as a test case *)
EXTENDS Image, Json

CONSTANTS Sizes, Centres, Fns, Psfs, Regs, MaxSets, MaxFns, MaxRegs, Emit

NFns == Len(Flat(sets))
Next ==
  \/ \E z \in Sizes : SetSize(z[1], z[2])
  \/ Len(sets) < MaxSets /\ psf.w = 0 /\ regions = <<>> /\ \E z \in Centres : NewSet(z[1], z[2])
  \/ NFns < MaxFns /\ psf.w = 0 /\ regions = <<>> /\ \E f \in Fns : AddFunction(f)
  \/ \E p \in Psfs : AddPsf(p)
  \/ Len(regions) < MaxRegs /\ \E rg \in Regs : AddRegion(rg)
  \/ shown = Nothing /\ Render
Spec == Init /\ [][Next]_vars

Done == shown.kind = "image"
Comps == Flat(sets)
Points == \E i \in 1..Len(Comps) : IsPoint(Comps[i])

\* the image is the sum of the images of its components (up to truncation to thousandths)
Additive == Done =>
  \A y \in 1..dim.ny, x \in 1..dim.nx :
    LET one(n) == Pixel(<<Comps[n]>>, psf, regions, dim, x, y)
        d == shown.img[y][x] - SumSeqOf(one, 1, Len(Comps))
    IN d >= 0 /\ d <= Len(Comps)
\* a component is only affected by its own parameters: permuting the sets does not change the image
Permutable == (Done /\ Len(sets) = 2) =>
  shown.img = ImageOf(Flat(<<sets[2], sets[1]>>), psf, regions, dim)
\* regions never reach outside themselves
RegionsLocal == Done =>
  \A y \in 1..dim.ny, x \in 1..dim.nx :
    Owner(regions, dim, x, y) = 0 => shown.img[y][x] = Pixel(Comps, psf, <<>>, dim, x, y)
\* a normalized PSF leaves a uniform sky alone, everywhere, including at the edges
SkyKept == (Done /\ (\A i \in 1..Len(Comps) : Comps[i].fn.k \in {"flat", "const"})
            /\ psf.norm = 1 /\ \A i \in 1..Len(regions) : regions[i].psf.norm = 1) =>
  \A y \in 1..dim.ny, x \in 1..dim.nx :
    LET a(n) == Comps[n].fn.a IN shown.img[y][x] = 1000 * SumSeqOf(a, 1, Len(Comps))
\* without PSF and for linear brightness, oversampling does not change anything
LinearKept == (Done /\ regions # <<>> /\ (\A i \in 1..Len(Comps) : Comps[i].fn.k \in {"flat", "const", "tilt"})
               /\ psf.w = 0 /\ \A i \in 1..Len(regions) : regions[i].psf.w = 0) =>
  shown.img = ImageOf(Comps, psf, <<>>, dim)
\* shifting every centre by (1,1) shifts the image by (1,1)
Shift == (Done /\ regions = <<>>) =>
  LET sh == [i \in 1..Len(Comps) |-> [Comps[i] EXCEPT !.x = @ + 2, !.y = @ + 2]]
  IN \A y \in 2..dim.ny, x \in 2..dim.nx : Pixel(sh, psf, regions, dim, x, y) = shown.img[y - 1][x - 1]

Case == [dim |-> dim, sets |-> sets, psf |-> psf, regions |-> regions]
Gen == (Done /\ Emit) => PrintT("@@case " \o ToJson(Case))
=============================================================================
