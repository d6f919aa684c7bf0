------------------------------ MODULE MCConfig ------------------------------
(* Every configuration text of at most MaxLen lines over a small alphabet; reading stops at the first error. *)
EXTENDS Config, Json
CONSTANTS Alphabet, MaxLen, Emit
VARIABLES hist, n
mvars == <<cvars, hist, n>>
W(k, x, a, b, s) == [k |-> k, n |-> x, a |-> a, b |-> b, s |-> s]
Word(s) == W("word", 0, 0, 0, s)
L(h, nm, t) == [h |-> h, name |-> nm, t |-> t, lab |-> ""]
Lines == [
  blank  |-> L("blank", "", <<>>),
  gain   |-> L("word", "GAIN", <<Num(2000)>>),
  gain0  |-> L("word", "GAIN", <<Num(0)>>),
  gainw  |-> L("word", "GAIN", <<Word("abc")>>),
  opt3   |-> L("word", "GAIN", <<Word("="), Num(2000)>>),
  opt1   |-> L("word", "NOTE", <<>>),
  ncols  |-> L("word", "NCOLS", <<Num(3000)>>),
  x0     |-> L("X0", "X0", <<Num(2000)>>),
  x0l    |-> L("X0", "X0", <<Num(1000), W("lim", 0, 1000, 5000, "")>>),
  x0w    |-> L("X0", "X0", <<Word("abc")>>),
  y0     |-> L("Y0", "Y0", <<Num(1000)>>),
  y0bad  |-> L("Y0", "Y0", <<Num(1000), W("lim", 0, 2000, 5000, "")>>),
  flat   |-> L("FUNCTION", "FUNCTION", <<Word("FlatSky")>>),
  tilt   |-> L("FUNCTION", "FUNCTION", <<Word("TiltedSkyPlane")>>),
  unknown|-> L("FUNCTION", "FUNCTION", <<Word("FlatSkies")>>),
  noname |-> L("FUNCTION", "FUNCTION", <<>>),
  p      |-> L("word", "I_0", <<Num(3000)>>),
  pfix   |-> L("word", "I_0", <<Num(4000), W("fixed", 0, 0, 0, "")>>),
  plim   |-> L("word", "I_0", <<Num(5000), W("lim", 0, 5000, 7000, "")>>),
  prev   |-> L("word", "I_0", <<Num(5000), W("lim", 0, 7000, 5000, "")>>),
  pequal |-> L("word", "I_0", <<Num(5000), W("lim", 0, 5000, 5000, "")>>),
  pout   |-> L("word", "I_0", <<Num(5000), W("lim", 0, 6000, 7000, "")>>),
  pword  |-> L("word", "I_0", <<Word("abc")>>),
  plimw  |-> L("word", "I_0", <<Num(5000), Word("1,b")>>),
  palone |-> L("word", "I_0", <<>>)]

MInit == CInit /\ hist = <<>> /\ n = 0
MNext == /\ Len(hist) < MaxLen /\ err = ""
         /\ \E a \in Alphabet : /\ Read(Lines[a]) /\ hist' = Append(hist, Lines[a])
                                /\ n' = n + (IF Lines[a].h = "blank" \/ err' # "" THEN 0 ELSE 1)
MSpec == MInit /\ [][MNext]_mvars

RECURSIVE Sum(_, _)
Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum(f, k - 1)
\* every line read is accounted for exactly once
Conserved == err = "" => n = Len(opts) + Len(AllParams) + Cardinality(AllFns) - (IF phase = "y" THEN 1 ELSE 0)
Whole == Complete => \A i \in 1..Len(sets) : NFns(sets[i]) > 0
\* a limited parameter of an accepted file starts within its limits
InLimits == Accepts("imfit", 0, 0, 0) => \A i \in 1..Len(AllParams) : LET q == AllParams[i] IN q.kind = "lim" => q.lo <= q.v /\ q.v <= q.hi
\* strict counting implies the total count
Strict == (Complete /\ Known /\ CountsOK) => TotalOK
BlankNeutral == [][hist' # hist /\ Last(hist').h = "blank" => UNCHANGED cvars]_mvars
OnlyGrows == [][/\ Len(sets') >= Len(sets) /\ Len(opts') >= Len(opts)
                /\ \A i \in 1..Len(opts) : opts'[i] = opts[i]
                /\ \A i \in 1..(Len(sets) - 1) : sets'[i] = sets[i]]_mvars
Gen == Emit => PrintT("@@case " \o ToJson([lines |-> hist, ok |-> IF Complete /\ LimitsOK /\ Known /\ ExtrasOK /\ CountsOK THEN 1 ELSE 0]))
=============================================================================
