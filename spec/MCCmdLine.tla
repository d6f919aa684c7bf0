----------------------------- MODULE MCCmdLine -----------------------------
(* Every command line of at most MaxLen words, for a small set of options or for makeimage's own. *)
EXTENDS MakeImageRun, Json
CONSTANTS Mode, MaxLen, Strict
VARIABLES hist
mvars == <<lvars, hist>>
W(n) == [d |-> 1, name |-> n, eq |-> 0, val |-> "", raw |-> "--" \o n]
E(n, v) == [d |-> 1, name |-> n, eq |-> 1, val |-> v, raw |-> "--" \o n \o "=" \o v]
A(v) == [d |-> 0, name |-> "", eq |-> 0, val |-> "", raw |-> v]
SmallKind == [n \in {"a", "alpha"} |-> [id |-> "alpha", kind |-> "flag"]] @@ [n \in {"x", "xray"} |-> [id |-> "xray", kind |-> "opt"]]
             @@ [n \in {"q"} |-> [id |-> "q", kind |-> "queue"]]
SmallWords == {W("a"), W("alpha"), E("a", "v"), W("x"), W("xray"), E("x", "v"), E("xray", "w=1"), W("q"), E("q", "u"), A("f"), A("g"), W("zz"), [W("") EXCEPT !.raw = "--"]}
MiWords == {A("cfg"), A("other"), W("nosave"), W("print-fluxes"), W("o"), E("output", "img.fits"), E("ncols", "7"), E("nrows", "4"), W("ncols"), A("5"), E("nrows", "0"),
            E("refimage", "ref.fits"), E("refimage", "none.fits"), E("save-fluxes", "fl.txt"), E("estimation-size", "12"), E("output-functions", "f_"), E("timing", "2"), W("help"), W("v"), W("bogus"),
            E("zero-point", "2.5"), E("zero-point", "x"), W("no-subsampling"), E("max-threads", "2"), W("sample-config")}
Num == [v \in {"7", "4", "5", "12", "2"} |-> [cls |-> "pos", n |-> CASE v = "7" -> 7 [] v = "4" -> 4 [] v = "5" -> 5 [] v = "12" -> 12 [] OTHER -> 2]]
       @@ ("0" :> [cls |-> "int", n |-> 0]) @@ ("2.5" :> [cls |-> "real", n |-> 0])
NumOf == [v \in {w.raw : w \in MiWords} \union {w.val : w \in MiWords} |-> IF v \in DOMAIN Num THEN Num[v] ELSE [cls |-> "word", n |-> 0]]
Cfg == [name |-> "cfg", nc |-> 0, nr |-> 3, fns |-> <<"FlatSky", "FlatSky">>, levels |-> <<1000, 2000>>]
Refs == "ref.fits" :> <<9, 8, 20>>

Words == IF Mode = "small" THEN SmallWords ELSE MiWords
Kind == IF Mode = "small" THEN SmallKind ELSE MiKind

MInit == hist = <<>> /\ LInit(<<>>)
\* the next word is chosen when the parser needs one
Give == /\ st = "run" /\ rest = <<>> /\ Len(hist) < MaxLen
        /\ \E w \in Words : rest' = <<w>> /\ hist' = Append(hist, w)
        /\ UNCHANGED <<flags, vals, args, st, pend>>
MNext == Give \/ (LNext(Kind, Strict) /\ UNCHANGED hist)
MSpec == MInit /\ [][MNext]_mvars

\* the same thing said without a state: word i is a value iff the word before it is an option waiting for one
RECURSIVE IsVal(_)
Known(w) == w.name \in DOMAIN Kind
IsVal(i) == i > 1 /\ ~IsVal(i - 1) /\ LET w == hist[i - 1] IN w.d = 1 /\ Known(w) /\ Kind[w.name].kind # "flag" /\ w.eq = 0
Idx == 1..Len(hist)
ArgIdx == {i \in Idx : ~IsVal(i) /\ hist[i].d = 0}
Sel(S) == LET q == SetToSortSeq(S, <) IN q
Got(id) == LET q == Sel({i \in Idx : (IsVal(i) /\ Kind[hist[i - 1].name].id = id)
                                     \/ (~IsVal(i) /\ hist[i].d = 1 /\ Known(hist[i]) /\ Kind[hist[i].name].id = id /\ Kind[hist[i].name].kind # "flag" /\ hist[i].eq = 1)})
           IN [k \in 1..Len(q) |-> IF IsVal(q[k]) THEN hist[q[k]].raw ELSE hist[q[k]].val]
Ids == {Kind[n].id : n \in DOMAIN Kind}
Denoted ==
  st = "ok" =>
    /\ args = [k \in 1..Cardinality(ArgIdx) |-> hist[Sel(ArgIdx)[k]].raw]
    /\ flags = {id \in Ids : \E i \in Idx : ~IsVal(i) /\ hist[i].d = 1 /\ Known(hist[i]) /\ Kind[hist[i].name].id = id /\ Kind[hist[i].name].kind = "flag"}
    /\ DOMAIN vals = {id \in Ids : Got(id) # <<>>}
    /\ \A id \in DOMAIN vals : vals[id] = Got(id)
    /\ Strict = 1 => \A i \in Idx : IsVal(i) \/ hist[i].d = 0 \/ Known(hist[i])
Refused == st = "err" => \/ (Len(hist) > 0 /\ Last(hist).d = 1)
\* what makeimage does
Quiet == (Mode = "makeimage" /\ st # "run") =>
  /\ ~Works(NumOf, Cfg, Refs) => Images(NumOf, Cfg, Refs) = {} /\ (Texts(NumOf, Cfg, Refs) = {} \/ "sample-config" \in flags)
  /\ Printed(NumOf, Cfg, Refs) => Images(NumOf, Cfg, Refs) = {}
  /\ \A im \in Images(NumOf, Cfg, Refs) : im[2] > 0 /\ im[3] > 0 /\ (IsSet("ncols") /\ IsSet("nrows") => im[2] \in {7, 5} /\ im[3] = 4)
  /\ Works(NumOf, Cfg, Refs) /\ IsSet("output-functions") /\ Saves => Cardinality(Images(NumOf, Cfg, Refs)) = 3
\* reading on never takes back what was read
Grows == [][/\ flags \subseteq flags' /\ DOMAIN vals \subseteq DOMAIN vals' /\ \A id \in DOMAIN vals : IsPrefix(vals[id], vals'[id])
            /\ IsPrefix(args, args')]_mvars
Gen == st # "run" => PrintT("@@case " \o ToJson([ws |-> hist, ok |-> IF st = "ok" THEN 1 ELSE 0,
                                                  w |-> IF Mode = "small" THEN 0 ELSE IF Works(NumOf, Cfg, Refs) THEN 1 ELSE 0]))
=============================================================================
