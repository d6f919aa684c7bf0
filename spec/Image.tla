-------------------------------- MODULE Image --------------------------------
(* The model image of imfit/makeimage.

   State: the model under construction (image size, function sets with their centres and their
   component functions, PSF, oversampled regions) and what has been rendered from it.
   Actions: one per step of the set-up sequence of the programs (image size, NewSet, AddFunction,
   AddPsf, AddRegion), then Render (whole image), RenderOne (one component).

   All quantities are integers: coordinates are counted in units of 1/(2s) of a pixel (s = sampling of
   the grid), centres in half pixels, intensities as rationals num/den, and rendered pixel values are
   reported in thousandths (Milli).  *)
EXTENDS ImageOps

VARIABLES
  dim,      \* [nx, ny]
  sets,     \* function sets: sequence of [x, y, fns]; x,y in half pixels, fns a sequence of components
  psf,      \* [w, h, norm, v]; w = 0: none.   v[row][col]
  regions,  \* oversampled regions: sequence of [x1, x2, y1, y2, s, psf, raw]
  shown     \* last thing rendered

vars == <<dim, sets, psf, regions, shown>>

-----------------------------------------------------------------------------
Init == dim = [nx |-> 0, ny |-> 0] /\ sets = <<>> /\ psf = NoPsf /\ regions = <<>> /\ shown = Nothing

SetSize(nx, ny) == dim.nx = 0 /\ dim' = [nx |-> nx, ny |-> ny] /\ UNCHANGED <<sets, psf, regions, shown>>
\* a new function set can start once the previous one has a function
NewSet(x, y) ==
  /\ dim.nx > 0 /\ shown = Nothing
  /\ (IF sets = <<>> THEN TRUE ELSE sets[Len(sets)].fns # <<>>)
  /\ sets' = Append(sets, [x |-> x, y |-> y, fns |-> <<>>])
  /\ UNCHANGED <<dim, psf, regions, shown>>
AddFunction(fn) ==
  /\ sets # <<>> /\ shown = Nothing
  /\ sets' = [sets EXCEPT ![Len(sets)].fns = Append(@, fn)]
  /\ UNCHANGED <<dim, psf, regions, shown>>
Ready == sets # <<>> /\ sets[Len(sets)].fns # <<>>
AddPsf(p) ==
  /\ Ready /\ shown = Nothing /\ psf.w = 0 /\ regions = <<>> /\ p.w > 0
  /\ psf' = p /\ UNCHANGED <<dim, sets, regions, shown>>
AddRegion(rg) ==
  /\ Ready /\ shown = Nothing
  /\ regions' = Append(regions, rg)
  /\ UNCHANGED <<dim, sets, psf, shown>>
Render ==
  /\ Ready
  /\ shown' = [kind |-> "image", img |-> ImageOf(Flat(sets), psf, regions, dim)]
  /\ UNCHANGED <<dim, sets, psf, regions>>
\* the image of component n alone (its own centre, same PSF and regions)
RenderOne(n) ==
  /\ Ready /\ shown # Nothing /\ n \in 1..Len(Flat(sets))
  /\ shown' = [kind |-> "one", n |-> n, img |-> ImageOf(<<Flat(sets)[n]>>, psf, regions, dim)]
  /\ UNCHANGED <<dim, sets, psf, regions>>
=============================================================================
