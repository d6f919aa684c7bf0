---------------------------- MODULE TraceCmdLine ----------------------------
(* Recorded answers of the real option parser, and recorded runs of makeimage, against CmdLine and MakeImageRun *)
EXTENDS MakeImageRun, ImfitRun, Json
VARIABLES c, l
tvars == <<lvars, c, l>>
Traces == ndJsonDeserialize("trace.ndjson")
Ev == Traces[c].ev[l]
IsEvent(e) == l <= Len(Traces[c].ev) /\ Ev.e = e /\ l' = l + 1 /\ c' = c /\ UNCHANGED lvars
Defs == Traces[c].defs
Kind == IF Traces[c].mi = 1 THEN MiKind ELSE IF Traces[c].mi = 2 THEN ImKind
        ELSE LET nm == {Defs[i].name : i \in 1..Len(Defs)} IN [n \in nm |-> LET i == CHOOSE i \in 1..Len(Defs) : Defs[i].name = n IN [id |-> Defs[i].id, kind |-> Defs[i].kind]]
Parsed(r) ==
  /\ st # "run"
  /\ r.crash = 0
  /\ r.st = (IF st = "ok" THEN 0 ELSE 1)
  /\ st = "ok" =>
       /\ r.args = args
       /\ r.empty = (IF Traces[c].ws = <<>> THEN 1 ELSE 0)
       /\ \A i \in 1..Len(r.flags) : r.flags[i].set = (IF Kind[r.flags[i].name].id \in flags THEN 1 ELSE 0)
       /\ \A i \in 1..Len(r.opts) : LET o == r.opts[i]  k == Kind[o.name] IN
            /\ o.set = (IF IsSet(k.id) THEN 1 ELSE 0)
            /\ IsSet(k.id) => /\ o.first = First(k.id)
                              /\ k.kind = "queue" => o.all = vals[k.id]
            /\ ~IsSet(k.id) => o.all = <<>>
\* num, refs come as sequences of pairs
AsFun(s) == [k \in {s[i][1] : i \in 1..Len(s)} |-> s[CHOOSE i \in 1..Len(s) : s[i][1] = k][2]]
RowsOK(rows, cfg) == rows = cfg.fns \o <<"Total">>
Ran(r) ==
  LET num == AsFun(Traces[c].num)  refs == AsFun(Traces[c].refs)  cfg == Traces[c].cf IN
  /\ st # "run"
  /\ r.crash = 0
  /\ r.ok = (IF Works(num, cfg, refs) THEN 1 ELSE 0)
  /\ r.ok = 0 => r.msg = 1
  /\ {r.images[i] : i \in 1..Len(r.images)} = Images(num, cfg, refs)
  /\ {r.texts[i] : i \in 1..Len(r.texts)} = Texts(num, cfg, refs)
  /\ IF Printed(num, cfg, refs) THEN RowsOK(r.rows, cfg) /\ r.est = (IF IsSet("estimation-size") THEN num[First("estimation-size")].n ELSE 5000)
     ELSE r.rows = <<>>
  /\ r.ok = 1 /\ IsSet("save-fluxes") => RowsOK(r.frows, cfg)
  /\ r.info = (IF Traces[c].ws = <<>> \/ (st = "ok" /\ flags \intersect Info # {}) THEN 1 ELSE 0)
RanImfit(r) ==
  LET num == AsFun(Traces[c].num)  imgs == AsFun(Traces[c].refs)  files == {Traces[c].cf[i] : i \in 1..Len(Traces[c].cf)} IN
  /\ st # "run"
  /\ r.crash = 0
  /\ r.ok = (IF ImWorks(num, files, imgs) THEN 1 ELSE 0)
  /\ r.ok = 0 => r.msg = 1
  /\ {r.images[i] : i \in 1..Len(r.images)} = ImImages(num, files, imgs)
  /\ {r.texts[i] : i \in 1..Len(r.texts)} = ImTexts(num, files, imgs)
  /\ r.ok = 1 => r.stat = ImStat /\ (StatOnly => r.solver = "none") /\ (~StatOnly => r.solver = ImSolver)

TraceInit == c \in 1..Len(Traces) /\ l = 1 /\ LInit(Traces[c].ws)
TraceNext ==
  \/ LNext(Kind, Traces[c].strict) /\ UNCHANGED <<c, l>>
  \/ IsEvent("parsed") /\ Parsed(Ev)
  \/ IsEvent("run") /\ Ran(Ev)
  \/ IsEvent("imfit") /\ RanImfit(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Report == (l = Len(Traces[c].ev) + 1) => PrintT("@@ok " \o ToString(c))
Progress == PrintT("@@at " \o ToString(l - 1))
=============================================================================
