------------------------------ MODULE ImfitRun ------------------------------
(* What one run of imfit accepts and writes, given its command line (CmdLine).
   num: meaning of each value word (see MakeImageRun).  files: the configuration files that exist.
   imgs: name of each existing image |-> <<columns, rows>>. *)
EXTENDS CmdLine
ImKind ==
  LET F(n) == [id |-> n, kind |-> "flag"]
      O(n) == [id |-> n, kind |-> "opt"]
      Q(n) == [id |-> n, kind |-> "queue"]
      fl == {"help", "version", "list-functions", "list-parameters", "sample-config", "printimage", "chisquare-only", "fitstat-only", "errors-are-variances",
             "errors-are-weights", "mask-zero-is-bad", "no-normalize", "no-subsampling", "model-errors", "cashstat", "poisson-mlr", "nm", "de", "de-lhs",
             "quiet", "silent", "loud"}
      op == {"noise", "mask", "psf", "save-params", "save-model", "save-residual", "save-weights", "sky", "gain", "readnoise", "exptime", "ncombined", "ftol",
             "bootstrap", "save-bootstrap", "config", "max-threads", "seed", "nlopt"}
      qu == {"overpsf", "overpsf_scale", "overpsf_region"}
  IN [n \in fl |-> F(n)] @@ [n \in op |-> O(n)] @@ [n \in qu |-> Q(n)]
     @@ ("h" :> F("help")) @@ ("v" :> F("version")) @@ ("c" :> O("config")) @@ ("mlr" :> F("poisson-mlr"))

ImInfo == {"help", "version", "list-functions", "list-parameters", "sample-config"}
ImPos == {"ncombined", "bootstrap", "max-threads", "seed"}
ImReal == {"gain", "readnoise", "exptime", "ftol"}
Positive(m) == m.cls = "pos" \/ (m.cls = "real" /\ m.n >= 0)
ImBad(num) ==
  \/ \E id \in ImPos : IsSet(id) /\ num[First(id)].cls # "pos"
  \/ \E id \in ImReal : IsSet(id) /\ ~Positive(num[First(id)])
  \/ IsSet("sky") /\ (num[First("sky")].cls = "word" \/ num[First("sky")].n < 0)
  \/ IsSet("nlopt") /\ First("nlopt") \notin {"COBYLA", "BOBYQA", "NEWUOA", "PRAXIS", "NM", "SBPLX"}
\* every file named must exist, mask and error image have the shape of the data
Conf == IF IsSet("config") THEN First("config") ELSE "imfit_config.dat"
ImFiles(files, imgs) ==
  /\ Conf \in files
  /\ Len(args) > 0 /\ args[1] \in DOMAIN imgs
  /\ \A id \in {"mask", "noise"} : IsSet(id) => First(id) \in DOMAIN imgs /\ imgs[First(id)] = imgs[args[1]]
  /\ IsSet("psf") => First("psf") \in DOMAIN imgs
StatOnly == flags \intersect {"chisquare-only", "fitstat-only"} # {}
DefaultSolver == flags \intersect {"nm", "de", "de-lhs"} = {} /\ ~IsSet("nlopt")
ImWorks(num, files, imgs) ==
  /\ st = "ok" /\ flags \intersect ImInfo = {} /\ ~ImBad(num) /\ ImFiles(files, imgs)
  \* the Cash statistic is no sum of squares
  /\ ~("cashstat" \in flags /\ DefaultSolver /\ ~StatOnly)
ImImages(num, files, imgs) ==
  IF ~ImWorks(num, files, imgs) THEN {}
  ELSE {<<First(id), imgs[args[1]][1], imgs[args[1]][2]>> : id \in {k \in {"save-model", "save-residual", "save-weights"} : IsSet(k)}}
ImTexts(num, files, imgs) ==
  IF ImWorks(num, files, imgs)
  THEN (IF StatOnly THEN {} ELSE {IF IsSet("save-params") THEN First("save-params") ELSE "bestfit_parameters_imfit.dat"})
       \union (IF IsSet("bootstrap") /\ IsSet("save-bootstrap") THEN {First("save-bootstrap")} ELSE {})
  ELSE IF st = "ok" /\ "sample-config" \in flags /\ flags \intersect (ImInfo \ {"sample-config"}) = {} THEN {"config_imfit_sample.dat"} ELSE {}
\* the statistic reported
ImStat == IF "cashstat" \in flags THEN "CASH" ELSE IF "poisson-mlr" \in flags THEN "POISSON-MLR" ELSE "CHI-SQUARE"
ImSolver == IF flags \intersect {"de", "de-lhs"} # {} THEN "DE" ELSE IF IsSet("nlopt") THEN First("nlopt") ELSE IF "nm" \in flags THEN "NM" ELSE "LM"
=============================================================================
