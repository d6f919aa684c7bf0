------------------------------- MODULE Config -------------------------------
(* The configuration-file language (core/config_file_parser.cpp, add_functions.cpp, the option handling of
   imfit_main.cpp / makeimage_main.cpp): one action reads one line; what has been understood so far is the
   state; at the end of the file a program accepts or refuses it.

   A line is [h, t, lab]: h = "blank" (white space or comment only), "X0", "Y0", "FUNCTION", "XS", "XE"
   (start / end of a function's optional parameters) or "word" (anything else); t the words after the first
   one; lab the label in a FUNCTION line's comment.  A word is [k, n, a, b, s]: k = "num" (n, in thousandths),
   "lim" (two numbers a,b), "fixed", or "word"; s is its text.  For a "word" line, name is the first word. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES phase,   \* "prelude", "y" (X0 read, Y0 must follow), "body"
          opts,    \* <<name, word>> of the prelude, in order
          sets,    \* function sets: [x, y, fns], fns: [name, lab, ps, xs]
          inx,     \* within optional parameters
          err      \* "" or why the file is malformed
cvars == <<phase, opts, sets, inx, err>>

CInit == phase = "prelude" /\ opts = <<>> /\ sets = <<>> /\ inx = 0 /\ err = ""

Arity == ("BrokenExponential" :> 7) @@ ("BrokenExponential2D" :> 7) @@ ("BrokenExponentialDisk3D" :> 9) @@ ("Core-Sersic" :> 8)
      @@ ("DattathriPeanut3D" :> 12) @@ ("EdgeOnDisk" :> 5) @@ ("EdgeOnRing" :> 5) @@ ("EdgeOnRing2Side" :> 6) @@ ("Exponential" :> 4)
      @@ ("ExponentialDisk3D" :> 6) @@ ("Exponential_GenEllipse" :> 5) @@ ("FerrersBar2D" :> 6) @@ ("FerrersBar3D" :> 8) @@ ("FlatBar" :> 8)
      @@ ("FlatSky" :> 1) @@ ("Gaussian" :> 4) @@ ("GaussianRing" :> 5) @@ ("GaussianRing2Side" :> 6) @@ ("GaussianRing3D" :> 8)
      @@ ("GaussianRingAz" :> 6) @@ ("ModifiedKing" :> 6) @@ ("ModifiedKing2" :> 6) @@ ("Moffat" :> 5) @@ ("PointSource" :> 1)
      @@ ("PointSourceRot" :> 2) @@ ("Sersic" :> 5) @@ ("Sersic_GenEllipse" :> 6) @@ ("TiltedSkyPlane" :> 3)

-----------------------------------------------------------------------------
(* Lines *)
ParamLineOK(t) == /\ Len(t) \in {1, 2} /\ t[1].k = "num"
                  /\ Len(t) = 2 => t[2].k \in {"fixed", "lim"}
ParamOf(t) == [v |-> t[1].n, kind |-> IF Len(t) = 1 THEN "free" ELSE t[2].k,
               lo |-> IF Len(t) = 2 /\ t[2].k = "lim" THEN t[2].a ELSE 0, hi |-> IF Len(t) = 2 /\ t[2].k = "lim" THEN t[2].b ELSE 0]
NFns(s) == Len(s.fns)
Last(s) == s[Len(s)]
SetLast(s, e) == [s EXCEPT ![Len(s)] = e]

Fail(why) == err' = why /\ UNCHANGED <<phase, opts, sets, inx>>
Blank == UNCHANGED cvars
OptionLine(l) == IF Len(l.t) = 1 THEN opts' = Append(opts, <<l.name, l.t[1]>>) /\ UNCHANGED <<phase, sets, inx, err>>
                 ELSE Fail("option")
X0Line(l) == IF ~ParamLineOK(l.t) THEN Fail("parameter")
             ELSE IF sets # <<>> /\ NFns(Last(sets)) = 0 THEN Fail("set without functions")
             ELSE /\ sets' = Append(sets, [x |-> ParamOf(l.t), y |-> ParamOf(l.t), fns |-> <<>>])
                  /\ phase' = "y" /\ UNCHANGED <<opts, inx, err>>
Y0Line(l) == IF ~ParamLineOK(l.t) THEN Fail("parameter")
             ELSE sets' = SetLast(sets, [Last(sets) EXCEPT !.y = ParamOf(l.t)]) /\ phase' = "body" /\ UNCHANGED <<opts, inx, err>>
FunctionLine(l) == IF l.t = <<>> THEN Fail("function without name")
                   ELSE /\ sets' = SetLast(sets, [Last(sets) EXCEPT !.fns = Append(@, [name |-> l.t[1].s, lab |-> l.lab, ps |-> <<>>, xs |-> <<>>])])
                        /\ UNCHANGED <<phase, opts, inx, err>>
LastFn == Last(Last(sets).fns)
InLastFn(f) == sets' = SetLast(sets, [Last(sets) EXCEPT !.fns = SetLast(@, f)]) /\ UNCHANGED <<phase, opts, inx, err>>
ParamLine(l) == IF ~ParamLineOK(l.t) THEN Fail("parameter")
                ELSE InLastFn([LastFn EXCEPT !.ps = Append(@, ParamOf(l.t))])
ExtraLine(l) == IF l.t = <<>> THEN Fail("optional parameter") ELSE InLastFn([LastFn EXCEPT !.xs = (l.name :> l.t[1].s) @@ @])     \* the last value counts

Read(l) ==
  IF l.h = "blank" \/ err # "" THEN Blank
  ELSE IF phase = "prelude" THEN (IF l.h = "X0" THEN X0Line(l) ELSE IF l.h = "FUNCTION" THEN Fail("function outside a set") ELSE OptionLine(l))
  ELSE IF phase = "y" THEN (IF l.h = "Y0" THEN Y0Line(l) ELSE Fail("X0 without Y0"))
  ELSE IF l.h = "X0" THEN X0Line(l)
  ELSE IF l.h = "FUNCTION" THEN FunctionLine(l)
  ELSE IF NFns(Last(sets)) = 0 THEN Fail("line outside a function")
  ELSE IF l.h = "XS" THEN inx' = 1 /\ UNCHANGED <<phase, opts, sets, err>>
  ELSE IF l.h = "XE" THEN inx' = 0 /\ UNCHANGED <<phase, opts, sets, err>>
  ELSE IF inx = 1 THEN ExtraLine(l)
  ELSE ParamLine(l)

-----------------------------------------------------------------------------
(* The end of the file *)
AllFns == {<<i, j>> \in (1..Len(sets)) \X (1..12) : j <= NFns(sets[i])}
FnAt(q) == sets[q[1]].fns[q[2]]
Params(s) == <<s.x, s.y>> \o
  LET RECURSIVE f(_)
      f(j) == IF j > NFns(s) THEN <<>> ELSE s.fns[j].ps \o f(j + 1) IN f(1)
AllParams == LET RECURSIVE f(_)
                 f(i) == IF i > Len(sets) THEN <<>> ELSE Params(sets[i]) \o f(i + 1) IN f(1)
Complete == err = "" /\ phase = "body" /\ NFns(Last(sets)) > 0
LimitsOK == LET ps == AllParams IN \A i \in 1..Len(ps) : ps[i].kind = "lim" => ps[i].lo < ps[i].hi /\ ps[i].lo <= ps[i].v /\ ps[i].v <= ps[i].hi
\* what the parser alone decides: with and without parameter limits
ParserAccepts(full) == Complete /\ (full = 1 => LimitsOK)
Known == \A q \in AllFns : FnAt(q).name \in DOMAIN Arity
CountsOK == \A q \in AllFns : Len(FnAt(q).ps) = Arity[FnAt(q).name]
\* the programs compare the total number only (see known-findings.txt)
TotalOK == LET RECURSIVE n(_, _)
               n(i, j) == IF i > Len(sets) THEN 0 ELSE IF j > NFns(sets[i]) THEN n(i + 1, 1) + 2 ELSE Arity[sets[i].fns[j].name] + n(i, j + 1)
           IN n(1, 1) = Len(AllParams)
ExtrasOK == \A q \in AllFns : DOMAIN FnAt(q).xs = {}          \* no function used here has optional parameters

OptVal(names, dflt) == LET is == {i \in 1..Len(opts) : opts[i][1] \in names} IN
                       IF is = {} THEN dflt ELSE opts[CHOOSE i \in is : \A j \in is : j <= i][2]
Num(n) == [k |-> "num", n |-> n, a |-> 0, b |-> 0, s |-> ""]
FitOpts == {"GAIN", "READNOISE", "EXPTIME", "NCOMBINED", "ORIGINAL_SKY"}
OptionsOK(prog, nc, nr) ==
  IF prog = "imfit"
  THEN /\ \A i \in 1..Len(opts) : opts[i][1] \in FitOpts => opts[i][2].k = "num"
       /\ OptVal({"GAIN"}, Num(1000)).n > 0 /\ OptVal({"EXPTIME"}, Num(1000)).n > 0 /\ OptVal({"NCOMBINED"}, Num(1000)).n >= 1000
       /\ OptVal({"READNOISE"}, Num(0)).n >= 0 /\ OptVal({"ORIGINAL_SKY"}, Num(0)).n >= 0
  ELSE /\ nc = 0 => /\ \A i \in 1..Len(opts) : opts[i][1] \in {"NCOLS", "NCOLUMNS"} => opts[i][2].k = "num" /\ opts[i][2].n >= 1000
                    /\ OptVal({"NCOLS", "NCOLUMNS"}, Num(0)).n > 0
       /\ nr = 0 => /\ \A i \in 1..Len(opts) : opts[i][1] = "NROWS" => opts[i][2].k = "num" /\ opts[i][2].n >= 1000
                    /\ OptVal({"NROWS"}, Num(0)).n > 0
Accepts(prog, nc, nr, lenient) ==
  /\ ParserAccepts(IF prog = "imfit" THEN 1 ELSE 0)
  /\ Known /\ ExtrasOK /\ IF lenient = 1 THEN TotalOK ELSE CountsOK
  /\ OptionsOK(prog, nc, nr)

(* The image the text denotes, for skies and sky planes: all parameters in file order, dealt out to the
   functions.  Thousandths. *)
Mul(a, b) == (a \div 1000) * b + ((a % 1000) * b) \div 1000        \* product of thousandths
ValueOf(f, x0, y0, p, at, x, y) ==
  IF f.name = "FlatSky" THEN p[at].v
  ELSE p[at].v + Mul(p[at + 1].v, 1000 * x - x0) + Mul(p[at + 2].v, 1000 * y - y0)
ModelValue(x, y) ==
  LET p == AllParams
      RECURSIVE v(_, _, _, _, _)
      v(i, j, at, x0, y0) ==
        IF i > Len(sets) THEN 0
        ELSE IF j > NFns(sets[i]) THEN (IF i = Len(sets) THEN 0 ELSE v(i + 1, 1, at + 2, p[at].v, p[at + 1].v))
        ELSE ValueOf(sets[i].fns[j], x0, y0, p, at, x, y) + v(i, j + 1, at + Arity[sets[i].fns[j].name], x0, y0)
  IN v(1, 1, 3, p[1].v, p[2].v)
Size(prog, nc, nr) == <<IF nc > 0 THEN nc ELSE OptVal({"NCOLS", "NCOLUMNS"}, Num(0)).n \div 1000, IF nr > 0 THEN nr ELSE OptVal({"NROWS"}, Num(0)).n \div 1000>>
=============================================================================
