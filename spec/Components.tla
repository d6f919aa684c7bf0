------------------------------ MODULE Components ------------------------------
(* Model images made of components whose brightness is not known in advance.

   A component is [k, x, y]: an image function with particular parameter values (k names the pair) seen
   from the centre (x, y), in half pixels.  Nothing is assumed about the brightness of k except that it
   is a function of the displacement from the centre: `seen' holds what has been observed of it so far.
   An image that shows a single component teaches its brightness (and must agree with what is known
   already, wherever and in whatever image it was observed); an image of several components must be the
   sum of what is known.  Brightness is in thousandths. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES seen      \* seen[k]: partial function from displacements <<dx, dy>> (half pixels) to brightness

Keys == 1..12
Empty == [d \in {} |-> 0]
CInit == seen = [k \in Keys |-> Empty]

At(cmp, x, y) == <<2 * x - cmp.x, 2 * y - cmp.y>>
Known(cmp, x, y) == At(cmp, x, y) \in DOMAIN seen[cmp.k]
Value(cmp, x, y) == seen[cmp.k][At(cmp, x, y)]

Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE Total(_,_,_)
Total(cs, x, y) == IF cs = <<>> THEN 0 ELSE Value(Head(cs), x, y) + Total(Tail(cs), x, y)
RECURSIVE Size(_,_,_)
Size(cs, x, y) == IF cs = <<>> THEN 0 ELSE Abs(Value(Head(cs), x, y)) + Size(Tail(cs), x, y)

\* rounding to thousandths of every value, and single-precision images
Slack(cs, x, y) == Len(cs) + 2 + Size(cs, x, y) \div 2000000

\* what the image of components cs can be, given what is known
Explained(cs, img) ==
  \A y \in 1..Len(img) : \A x \in 1..Len(img[y]) :
     (\A i \in 1..Len(cs) : Known(cs[i], x, y)) => Abs(img[y][x] - Total(cs, x, y)) <= Slack(cs, x, y)

\* what it teaches: only the image of a single component does
Learned(cs, img) ==
  IF Len(cs) # 1 THEN seen
  ELSE LET new == [p \in {At(cs[1], x, y) : x \in 1..Len(img[1]), y \in 1..Len(img)} |->
                     img[(p[2] + cs[1].y) \div 2][(p[1] + cs[1].x) \div 2]]
       IN [seen EXCEPT ![cs[1].k] = @ @@ new]

Look(cs, img) == cs # <<>> /\ Explained(cs, img) /\ seen' = Learned(cs, img)
=============================================================================
