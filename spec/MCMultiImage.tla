----------------------------- MODULE MCMultiImage -----------------------------
(* Models of up to MaxSets function sets seen in up to MaxImages images *)
EXTENDS MultiImage, Json, FiniteSets
CONSTANTS MaxSets, MaxImages, Emit
VARIABLE phase

SetPool == { [x |-> 80000, y |-> 70000, fs |-> << [f |-> "Gaussian", p |-> <<300000, 4000, 9000000, 20000>>] >>],
             [x |-> 115000, y |-> 50000, fs |-> << [f |-> "BrokenExponential", p |-> <<-200000, 2500, 2000000, 40000, 20000, 30000, 10000>>],
                                                 [f |-> "TiltedSkyPlane", p |-> <<50000, 10000, -20000>>] >>],
             [x |-> 80000, y |-> 110000, fs |-> << [f |-> "FlatSky", p |-> <<30000>>], [f |-> "Moffat", p |-> <<900000, 2000, 4000000, 30000, 25000>>] >>] }
Locals == { <<>>, << [x |-> 100000, y |-> 60000, fs |-> << [f |-> "FlatSky", p |-> <<20000>>], [f |-> "Gaussian", p |-> <<0, 0, 3000000, 15000>>] >>] >> }
Ways == { [s |-> <<1, 1>>, a |-> 1, f |-> <<1, 1>>], [s |-> <<2, 1>>, a |-> 1, f |-> <<1, 1>>], [s |-> <<1, 2>>, a |-> 2, f |-> <<5, 2>>],
          [s |-> <<5, 4>>, a |-> 5, f |-> <<1, 1>>], [s |-> <<4, 5>>, a |-> 6, f |-> <<2, 5>>], [s |-> <<1, 1>>, a |-> 4, f |-> <<3, 1>>] }
Im(w, x, y, loc) == [s |-> w.s, a |-> w.a, f |-> w.f, x |-> x, y |-> y, ox |-> 0, oy |-> 0, local |-> loc]

MCInit == MMInit /\ phase = "build"
Grow == /\ phase = "build" /\ images = <<>> /\ Len(model) < MaxSets /\ \E s \in SetPool : AddSet(s) /\ UNCHANGED phase
Look == /\ phase = "build" /\ model # <<>> /\ Len(images) < MaxImages
        /\ \E loc \in Locals :
             IF images = <<>> THEN AddImage(Im(Reference, 0, 0, loc)) ELSE \E w \in Ways : AddImage(Im(w, 90000 + 10000 * Len(images), 75000, loc))
        /\ UNCHANGED phase
Done == phase = "build" /\ images # <<>> /\ phase' = "done" /\ UNCHANGED mvars
MCSpec == MCInit /\ [][Grow \/ Look \/ Done]_<<mvars, phase>>

\* the flat vector holds everything, once, and reading it by position gives what each image sees
Layout == \A n \in 1..Len(images) : Extract(Flat(model, images), model, images, n) = View(model, images, n)
\* the reference image sees the model; the others have their first set where they say
Frames == images # <<>> =>
  /\ SubSeq(View(model, images, 1), 1, Len(model)) = model
  /\ \A n \in 2..Len(images) : View(model, images, n)[1].x = images[n].x /\ View(model, images, n)[1].y = images[n].y
Inverse(im) == [s |-> <<im.s[2], im.s[1]>>, f |-> <<im.f[2], im.f[1]>>, x |-> model[1].x, y |-> model[1].y,
                a |-> CHOOSE t \in 1..(Len(Turns) + 0) : Turns[t].c = Turns[im.a].c /\ Turns[t].s = -Turns[im.a].s, local |-> <<>>]
HasInverse(im) == \E t \in 1..Len(Turns) : Turns[t].c = Turns[im.a].c /\ Turns[t].s = -Turns[im.a].s
\* ... and looking back from an image gives the model again (angles apart, which are only known modulo a turn)
Plain(S) == [k \in 1..Len(S) |-> [S[k] EXCEPT !.fs = [j \in 1..Len(@) |-> [@[j] EXCEPT !.p = [i \in 1..Len(@) |-> IF Kind(S[k].fs[j].f)[i] = "A" THEN @[i] % 3600000 ELSE @[i]]]]]]
There == \A n \in 2..Len(images) : HasInverse(images[n]) =>
  LET v == SubSeq(View(model, images, n), 1, Len(model)) IN
  Plain([k \in 1..Len(v) |-> SeenSet(v, k, Inverse(images[n]))]) = Plain(model)
\* distances scale with the size of the pixels and with nothing else
Sq(v) == (v \div 100) * (v \div 100)
Lengths == \A n \in 2..Len(images) : \A k \in 1..Len(model) :
  LET v == View(model, images, n)
      dr == Sq(model[k].x - model[1].x) + Sq(model[k].y - model[1].y)
      di == Sq(v[k].x - v[1].x) + Sq(v[k].y - v[1].y)
  IN Abs(di * images[n].s[1] * images[n].s[1] - dr * images[n].s[2] * images[n].s[2]) <= 40000
Gen == (Emit /\ phase = "done") => PrintT("@@case " \o ToJson([model |-> model, images |-> images, views |-> [n \in 1..Len(images) |-> View(model, images, n)]]))
=============================================================================
