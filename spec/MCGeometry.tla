------------------------------ MODULE MCGeometry ------------------------------
(* Geometry against functions whose brightness is fixed beforehand, seen in all views: whatever they show is
   explained, whatever is learned is true, and a picture of another view is refused.
   Also enumerates the sequences of views that the checks replay. *)
EXTENDS Geometry, Json
CONSTANTS MaxViews, Emit
VARIABLES nature, hist

\* brightness of the function at displacement u (1/20 pixel): 1 an oblique bar-like symmetric function, 2 a plane, 3 a lopsided one
Wave(n, u) ==
  CASE n = 1 -> 5000 + ((u[1] + 2 * u[2]) * (u[1] + 2 * u[2])) + u[2] * u[2] * 3
    [] n = 2 -> 9000 + 20 * u[1] - 3 * u[2]
    [] OTHER -> 7000 + u[1] * u[1] + 5 * u[1] + 11 * u[2]
SymOf(n) == IF n = 1 THEN 1 ELSE 0

RECURSIVE Turn(_,_)
Turn(d, t) == IF t = 0 THEN d ELSE Turn(<<-d[2], d[1]>>, t - 1)
\* where the point u of the function is seen (in half pixels times 10 of the view)
Image(v, u) == LET m == IF v.mirror = 1 THEN <<-u[1], u[2]>> ELSE u
                   r == Turn(m, v.turn)
               IN <<r[1] * v.zoom, r[2] * v.zoom>>
\* the view's picture, by looking for the point that is seen at each pixel
Seen(v, n, x, y) == LET d == <<10 * (2 * x - v.x), 10 * (2 * y - v.y)>>
                        a == Abs(d[1]) \div v.zoom   b == Abs(d[2]) \div v.zoom
                        u == CHOOSE u \in ({-a, a} \X {-b, b}) \union ({-b, b} \X {-a, a}) : Image(v, u) = d
                    IN v.gain * Wave(n, u)
Photo(v, n, z) == [y \in 1..z[2] |-> [x \in 1..z[1] |-> Seen(v, n, x, y)]]

Views == {[turn |-> t, mirror |-> m, zoom |-> z, gain |-> g] : t \in 0..3, m \in {0, 1}, z \in {1, 2, 10}, g \in {1, 3}}
Full(v, n, cx, cy) == v @@ [x |-> cx, y |-> cy, sym |-> SymOf(n), hole |-> 0, tol |-> 0]
Identity == [turn |-> 0, mirror |-> 0, zoom |-> 1, gain |-> 1]
Size == <<2, 3>>
MCInit == GInit /\ nature \in 1..3 /\ hist = <<>>
Look == /\ Len(hist) < MaxViews
        /\ \E w \in (IF hist = <<>> THEN {Identity} ELSE Views), cc \in {<<2, 4>>, <<3, 3>>} :
             LET v == Full(w, nature, cc[1], cc[2])
             IN View(v, Photo(v, nature, Size)) /\ hist' = Append(hist, w)
        /\ UNCHANGED nature
\* for the enumeration of sequences of views only
Choose == /\ Len(hist) < MaxViews /\ \E w \in Views : w \notin {hist[i] : i \in DOMAIN hist} /\ hist' = Append(hist, w)
          /\ UNCHANGED <<nature, seen>>
MCSpec == MCInit /\ [][Look]_<<seen, nature, hist>>
ChooseSpec == GInit /\ nature = 1 /\ hist = <<>> /\ [][Choose]_<<seen, nature, hist>>

Truth == \A d \in DOMAIN seen : seen[d] = Wave(nature, d) \/ (nature = 1 /\ seen[d] = Wave(1, <<-d[1], -d[2]>>))
Explainable == \A w \in Views : LET v == Full(w, nature, 3, 3) IN Explained(v, Photo(v, nature, Size)) /\ SelfConsistent(v, Photo(v, nature, Size))
\* a picture of another view is refused when enough is known
Known6 == \A x \in 1..Size[1], y \in 1..Size[2], w \in Views : (w.zoom = 1) => Known(Full(w, nature, 2, 4), x, y)
Sharp == Known6 =>
  \A a, b \in {w \in Views : w.zoom = 1} :
    (a # b /\ nature # 1) => ~Explained(Full(a, nature, 2, 4), Photo(Full(b, nature, 2, 4), nature, Size))
Gen == (Emit /\ hist # <<>>) => PrintT("@@case " \o ToJson(hist))
=============================================================================
