--------------------------------- MODULE Files ---------------------------------
(* A program and its files.
   A run reads a configuration and images in some order and, when every one is usable, computes and writes what was asked
   for.  The first input it cannot use ends the run: with an error, without a crash, and before anything is computed - so
   that what earlier runs left is untouched.  An output that cannot be written is reported, and takes nothing else that
   was written with it.
   A world is a record: prog, inputs (role -> condition), outputs (role -> "good" or "bad"). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES world, phase, seen, wrote, told
fvars == <<world, phase, seen, wrote, told>>

Programs == {"imfit", "imfit-mcmc", "makeimage", "makemultimages", "multimfit"}
(* "size" is an image whose shape is not that of the data; "short" has the right header but too few pixels *)
Broken == {"missing", "short", "header", "text", "empty", "cube", "line", "nothing", "zero", "noext", "directory", "table", "outside"}
Images(p) == CASE p = "imfit" -> {"data", "mask", "noise", "psf", "overpsf"}
               [] p = "imfit-mcmc" -> {"data", "mask", "noise", "psf", "overpsf"}
               [] p = "makeimage" -> {"psf", "overpsf", "reference"}
               [] p = "makemultimages" -> {"psf", "overpsf2", "psf2", "reference"}
               [] p = "multimfit" -> {"data", "mask", "noise", "psf", "data2", "mask2", "noise2", "psf2", "overpsf2"}
Texts(p) == {"config"} \cup (IF p \in {"makemultimages", "multimfit"} THEN {"info"} ELSE {})
Needed(p) == Texts(p) \cup (IF p \in {"imfit", "imfit-mcmc"} THEN {"data"} ELSE IF p = "multimfit" THEN {"data", "data2"} ELSE {})
Shaped == {"mask", "noise", "mask2", "noise2"}          \* must have the shape of the data
Sizes == {"reference"}                                   \* only the shape matters
Conditions(r) == IF r \in {"config", "info"} THEN {"ok", "missing", "text", "empty", "directory"}
                 ELSE {"ok"} \cup Broken \cup (IF r \in Shaped THEN {"size"} ELSE {})
Usable(r, c) == c = "ok" \/ (r \in Sizes /\ c = "short")
Outputs(p) == CASE p = "imfit" -> {"params", "model", "residual", "weights", "boot"}
                [] p = "imfit-mcmc" -> {"chains"}
                [] p = "makeimage" -> {"image", "parts"}
                [] p = "makemultimages" -> {"images"}
                [] p = "multimfit" -> {"fits", "boot"}
(* the outputs without which the run is a failure, and after which nothing else may follow *)
Vital == {"params", "chains", "fits"}

Good(w) == \A r \in DOMAIN w.inputs : Usable(r, w.inputs[r])
Bad(w) == { o \in DOMAIN w.outputs : w.outputs[o] = "bad" }

FInit(w) == world = w /\ phase = "reading" /\ seen = {} /\ wrote = {} /\ told = {}
Read(r) == /\ phase = "reading" /\ r \in DOMAIN world.inputs \ seen
           /\ IF Usable(r, world.inputs[r]) THEN seen' = seen \cup {r} /\ phase' = phase ELSE seen' = seen /\ phase' = "refused"
           /\ UNCHANGED <<world, wrote, told>>
Compute == phase = "reading" /\ seen = DOMAIN world.inputs /\ phase' = "writing" /\ UNCHANGED <<world, seen, wrote, told>>
Write(o) == /\ phase = "writing" /\ o \in DOMAIN world.outputs \ (wrote \cup told)
            /\ IF world.outputs[o] = "good" THEN wrote' = wrote \cup {o} /\ told' = told /\ phase' = phase
               ELSE told' = told \cup {o} /\ wrote' = wrote /\ phase' \in IF o \in Vital THEN {"failed"} ELSE {phase}
            /\ UNCHANGED <<world, seen>>
Finish == phase = "writing" /\ wrote \cup told = DOMAIN world.outputs /\ phase' = "done" /\ UNCHANGED <<world, seen, wrote, told>>

(* how runs in this world may end; a refused and a failed run look the same from outside: a status other than zero *)
Ends(w) ==
  IF ~Good(w) THEN { [end |-> "stopped", wrote |-> {}, told |-> {}] }
  ELSE IF Bad(w) \cap Vital = {} THEN { [end |-> "done", wrote |-> DOMAIN w.outputs \ Bad(w), told |-> Bad(w)] }
  ELSE { [end |-> "stopped", wrote |-> s, told |-> t \cup {v}] :
           s \in SUBSET (DOMAIN w.outputs \ Bad(w)), t \in SUBSET Bad(w), v \in Bad(w) \cap Vital }
================================================================================
