----------------------------- MODULE MCComponents -----------------------------
(* Components against a nature that has fixed the brightness of every function beforehand: whatever is
   looked at, in whatever order, everything nature shows is explained, and what is learned is true.
   Also enumerates the layouts (function sets and what they contain) that the checks replay. *)
EXTENDS Components, Json

CONSTANTS NKeys, Centres, Sizes, MaxSets, MaxFns, Emit

VARIABLES true, layout, looks

\* brightness is a function of the displacement: here, of its parity class and distance
Disp == {<<a, b>> : a \in -12..12, b \in -12..12}
Natures == [1..NKeys -> {0, 1, 2}]
Shown(n, d) == CASE n = 0 -> 500 [] n = 1 -> 1000 + 10 * d[1] - 7 * d[2] [] n = 2 -> IF d = <<0, 0>> THEN 4000 ELSE 3

MCInit == CInit /\ true \in Natures /\ layout = <<>> /\ looks = 0
Flat2(ss) ==
  LET RECURSIVE f(_)
      f(i) == IF i > Len(ss) THEN <<>>
              ELSE [j \in 1..Len(ss[i].fns) |-> [k |-> ss[i].fns[j], x |-> ss[i].x, y |-> ss[i].y]] \o f(i + 1)
  IN f(1)
NFns == Len(Flat2(layout))
NewSet == /\ Len(layout) < MaxSets /\ looks = 0
          /\ IF layout = <<>> THEN TRUE ELSE layout[Len(layout)].fns # <<>>
          /\ \E z \in Centres : layout' = Append(layout, [x |-> z[1], y |-> z[2], fns |-> <<>>])
          /\ UNCHANGED <<seen, true, looks>>
AddFn == /\ layout # <<>> /\ NFns < MaxFns /\ looks = 0
         /\ \E k \in 1..NKeys : layout' = [layout EXCEPT ![Len(layout)].fns = Append(@, k)]
         /\ UNCHANGED <<seen, true, looks>>
Ready == layout # <<>> /\ layout[Len(layout)].fns # <<>>
RECURSIVE Sum(_,_,_)
Sum(cs, x, y) == IF cs = <<>> THEN 0 ELSE Shown(true[Head(cs).k], At(Head(cs), x, y)) + Sum(Tail(cs), x, y)
Photo(cs, z) == [y \in 1..z[2] |-> [x \in 1..z[1] |-> Sum(cs, x, y)]]
LookAll == Ready /\ looks < 3 /\ \E z \in Sizes : Look(Flat2(layout), Photo(Flat2(layout), z)) /\ looks' = looks + 1 /\ UNCHANGED <<true, layout>>
LookOne == Ready /\ looks < 3 /\ \E z \in Sizes, i \in 1..NFns, s \in {0, 2} :
             LET q == <<[Flat2(layout)[i] EXCEPT !.x = @ + s]>>
             IN Look(q, Photo(q, z)) /\ looks' = looks + 1 /\ UNCHANGED <<true, layout>>
MCNext == NewSet \/ AddFn \/ LookAll \/ LookOne
MCSpec == MCInit /\ [][MCNext]_<<seen, true, layout, looks>>

\* nothing nature shows is ever refused ...
Explainable == Ready => \A z \in Sizes : Explained(Flat2(layout), Photo(Flat2(layout), z))
\* ... and what has been learned is the truth
Truth == \A k \in 1..NKeys : \A d \in DOMAIN seen[k] : seen[k][d] = Shown(true[k], d)
\* an image in which one component was replaced, moved or left out is refused once its parts are known
AllKnown == Ready /\ \A i \in 1..NFns : \A z \in Sizes : \A x \in 1..z[1], y \in 1..z[2] : Known(Flat2(layout)[i], x, y)
Sharp == AllKnown => \A z \in Sizes, i \in 1..NFns :
   LET cs == Flat2(layout)
       less == SubSeq(cs, 1, i - 1) \o SubSeq(cs, i + 1, NFns)
   IN true[cs[i].k] # 2 => ~ Explained(cs, Photo(less, z))
Gen == (Emit /\ Ready /\ looks = 0 /\ \A k \in 1..NKeys : true[k] = 0) => PrintT("@@case " \o ToJson(layout))
=============================================================================
