---------------------------- MODULE TraceConfig ----------------------------
(* Recorded readings of configuration files (parser called directly, imfit, makeimage) against Config *)
EXTENDS Config, Json
VARIABLES c, l
Traces == ndJsonDeserialize("trace.ndjson")
Ev == Traces[c].ev[l]
IsEvent(e) == l <= Len(Traces[c].ev) /\ Ev.e = e /\ l' = l + 1 /\ c' = c
Lenient == Traces[c].lenient

\* what the parser understood
FnNames == LET RECURSIVE f(_, _)
               f(i, j) == IF i > Len(sets) THEN <<>> ELSE IF j > NFns(sets[i]) THEN f(i + 1, 1) ELSE <<sets[i].fns[j]>> \o f(i, j + 1) IN f(1, 1)
Starts == [i \in 1..Len(sets) |-> LET RECURSIVE s(_)
                                       s(k) == IF k = 0 THEN 0 ELSE NFns(sets[k]) + s(k - 1) IN s(i - 1)]
KindOK(q, r, full) == full = 1 => /\ r.fixed = (IF q.kind = "fixed" THEN 1 ELSE 0)
                                  /\ q.kind = "lim" <=> r.lim = 1
                                  /\ q.kind = "lim" => r.lo = q.lo /\ r.hi = q.hi
Parsed(r) ==
  /\ r.ok = (IF ParserAccepts(r.full) THEN 1 ELSE 0)
  /\ r.ok = 1 =>
       /\ r.opts = [i \in 1..Len(opts) |-> <<opts[i][1], opts[i][2].s>>]
       /\ r.starts = Starts
       /\ r.fns = [i \in 1..Len(FnNames) |-> FnNames[i].name] /\ r.labs = [i \in 1..Len(FnNames) |-> FnNames[i].lab]
       /\ Len(r.xs) = Len(FnNames)
       /\ \A i \in 1..Len(FnNames) : {<<k, FnNames[i].xs[k]>> : k \in DOMAIN FnNames[i].xs} = {<<r.xs[i][k][1], r.xs[i][k][2]>> : k \in DOMAIN r.xs[i]}
       /\ LET ps == AllParams IN Len(r.ps) = Len(ps) /\ \A i \in 1..Len(ps) : r.ps[i].v = ps[i].v /\ KindOK(ps[i], r.ps[i], r.full)
       /\ r.full = 1 => r.found = (IF \E i \in 1..Len(AllParams) : AllParams[i].kind # "free" THEN 1 ELSE 0)

\* a run of a program on the file
Drawable == \A i \in 1..Len(FnNames) : FnNames[i].name \in {"FlatSky", "TiltedSkyPlane"}
Ran(r) ==
  /\ r.crash = 0
  /\ r.ok = (IF Accepts(r.prog, r.nc, r.nr, Lenient) THEN 1 ELSE 0)
  /\ r.ok = 0 => r.files = 0 /\ r.msg = 1
  /\ r.ok = 1 /\ Drawable => LET sz == Size(r.prog, r.nc, r.nr) IN
       /\ Len(r.out) = sz[2] /\ \A y \in 1..sz[2] : Len(r.out[y]) = sz[1]
       /\ \A y \in 1..sz[2] : \A x \in 1..sz[1] : LET m == ModelValue(x, y) IN
            LET d == r.out[y][x] - m  t == 2 + 3 * Len(FnNames) + (IF m < 0 THEN -m ELSE m) \div 8000000 IN -t <= d /\ d <= t

TraceInit == CInit /\ c \in 1..Len(Traces) /\ l = 1
TraceNext ==
  \/ IsEvent("line") /\ Read(Ev.l)
  \/ IsEvent("parsed") /\ Parsed(Ev) /\ UNCHANGED cvars
  \/ IsEvent("run") /\ Ran(Ev) /\ UNCHANGED cvars
TraceSpec == TraceInit /\ [][TraceNext]_<<cvars, c, l>>
Report == (l = Len(Traces[c].ev) + 1) => PrintT("@@ok " \o ToString(c))
Progress == PrintT("@@at " \o ToString(l - 1))
=============================================================================
