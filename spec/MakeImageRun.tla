---------------------------- MODULE MakeImageRun ----------------------------
(* What one run of makeimage does, given its command line (CmdLine) and the configuration file it names.
   num: what each value word means: [cls: "pos" positive integer, "int" other integer, "real", "word"; n].
   cfg: [name, nc, nr (0 = not given), fns: the functions' names, levels: the level of each FlatSky].
   refs: name of each existing image |-> <<columns, rows, sum of its pixels>>. *)
EXTENDS CmdLine
MiKind ==
  LET F(n) == [id |-> n, kind |-> "flag"]
      O(n) == [id |-> n, kind |-> "opt"]
      Q(n) == [id |-> n, kind |-> "queue"]
      fl == {"list-functions", "list-parameters", "sample-config", "printimage", "save-expanded", "no-normalize", "no-subsampling", "print-fluxes", "nosave"}
      op == {"ncols", "nrows", "refimage", "psf", "zero-point", "estimation-size", "save-fluxes", "output-functions", "timing", "max-threads", "debug"}
      qu == {"overpsf", "overpsf_scale", "overpsf_region"}
  IN [n \in fl |-> F(n)] @@ [n \in op |-> O(n)] @@ [n \in qu |-> Q(n)]
     @@ ("help" :> F("help")) @@ ("h" :> F("help")) @@ ("version" :> F("version")) @@ ("v" :> F("version"))
     @@ ("output" :> O("output")) @@ ("o" :> O("output"))

Info == {"help", "version", "list-functions", "list-parameters", "sample-config"}
NeedPos == {"ncols", "nrows", "estimation-size", "timing", "max-threads"}
Cls(num, id) == num[First(id)].cls
BadNumber(num) ==
  \/ \E id \in NeedPos : IsSet(id) /\ Cls(num, id) # "pos"
  \/ IsSet("overpsf_scale") /\ \E i \in 1..Len(vals["overpsf_scale"]) : num[vals["overpsf_scale"][i]].cls # "pos"
  \/ IsSet("zero-point") /\ Cls(num, "zero-point") = "word"
  \/ IsSet("debug") /\ Cls(num, "debug") \notin {"pos", "int"}
Saves == flags \intersect {"nosave", "print-fluxes"} = {} /\ ~IsSet("timing")
Fluxes == "print-fluxes" \in flags \/ IsSet("save-fluxes")
FluxOnly == Fluxes /\ ~Saves /\ "printimage" \notin flags
\* size asked for: command line over configuration file over reference image
Side(num, id, c) == IF IsSet(id) THEN num[First(id)].n ELSE c
Given(num, cfg) == Side(num, "ncols", cfg.nc) > 0 /\ Side(num, "nrows", cfg.nr) > 0
Size(num, cfg, refs) ==
  IF Given(num, cfg) THEN <<Side(num, "ncols", cfg.nc), Side(num, "nrows", cfg.nr)>>
  ELSE IF IsSet("refimage") /\ First("refimage") \in DOMAIN refs THEN <<refs[First("refimage")][1], refs[First("refimage")][2]>>
  ELSE <<0, 0>>
NoSize(num, cfg, refs) == Size(num, cfg, refs) = <<0, 0>> /\ ~FluxOnly
NoPsf(refs) == IsSet("psf") /\ First("psf") \notin DOMAIN refs
NoOver(refs) == IsSet("overpsf") /\ \E i \in 1..Len(vals["overpsf"]) : vals["overpsf"][i] \notin DOMAIN refs
Works(num, cfg, refs) ==
  /\ st = "ok" /\ flags \intersect Info = {}
  /\ ~BadNumber(num)
  /\ Len(args) > 0 /\ args[1] = cfg.name
  /\ ~NoSize(num, cfg, refs) /\ ~NoPsf(refs) /\ ~NoOver(refs)
Sum(s) == LET RECURSIVE f(_)
              f(k) == IF k = 0 THEN 0 ELSE s[k] + f(k - 1) IN f(Len(s))
\* an unnormalised PSF multiplies everything by its sum
Gain(refs) == IF IsSet("psf") /\ "no-normalize" \in flags THEN refs[First("psf")][3] ELSE 1
OutName == IF IsSet("output") THEN First("output") ELSE "modelimage.fits"
\* the images written: <<name, columns, rows, level>>
Images(num, cfg, refs) ==
  IF ~Works(num, cfg, refs) \/ ~Saves THEN {}
  ELSE LET s == Size(num, cfg, refs) IN
    {<<OutName, s[1], s[2], Gain(refs) * Sum(cfg.levels)>>}
    \union (IF IsSet("output-functions")
            THEN {<<First("output-functions") \o ToString(i) \o "_" \o cfg.fns[i] \o ".fits", s[1], s[2], Gain(refs) * cfg.levels[i]>> : i \in 1..Len(cfg.fns)} ELSE {})
Texts(num, cfg, refs) ==
  IF Works(num, cfg, refs) /\ IsSet("save-fluxes") THEN {First("save-fluxes")}
  ELSE IF st = "ok" /\ "sample-config" \in flags /\ flags \intersect (Info \ {"sample-config"}) = {} THEN {"config_makeimage_sample.dat"}
  ELSE {}
Printed(num, cfg, refs) == Works(num, cfg, refs) /\ "print-fluxes" \in flags
=============================================================================
