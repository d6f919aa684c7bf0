-------------------------------- MODULE MCFiles --------------------------------
(* Worlds with up to MaxBad unusable inputs and any outputs, and every order of reading and writing. *)
EXTENDS Files, Json
CONSTANTS Emit, MaxBad
Used(p) == { Needed(p) \cup s : s \in SUBSET (Images(p) \ Needed(p)) }
\* roles with up to MaxBad broken ones; the usable others are given or not
Inputs(p) ==
  UNION { { [r \in Needed(p) \cup b |-> IF r \in b THEN f[r] ELSE "ok"] : f \in { g \in [b -> UNION { Conditions(r) : r \in b }] : \A r \in b : g[r] \in Conditions(r) } }
          : b \in { x \in SUBSET (Images(p) \cup Texts(p)) : Cardinality(x) <= MaxBad } }
Worlds == UNION { { [prog |-> p, inputs |-> i, outputs |-> o] : i \in Inputs(p), o \in {[r \in Outputs(p) |-> "good"]} } : p \in Programs }
  \cup UNION { { [prog |-> p, inputs |-> [r \in Needed(p) |-> "ok"], outputs |-> o] : o \in [Outputs(p) -> {"good", "bad"}] } : p \in Programs }
MCInit == \E w \in Worlds : FInit(w)
MCNext == (\E r \in DOMAIN world.inputs : Read(r)) \/ Compute \/ (\E o \in DOMAIN world.outputs : Write(o)) \/ Finish
MCSpec == MCInit /\ [][MCNext]_fvars /\ WF_fvars(MCNext)

Ended == phase \in {"refused", "failed", "done"}
\* every run ends, and ends as Ends says, whatever the order of reading and writing
EndsAs == Ended => [end |-> IF phase = "done" THEN "done" ELSE "stopped", wrote |-> wrote, told |-> told] \in Ends(world)
Terminates == <>Ended
Untouched == phase = "refused" => (wrote = {} /\ told = {} /\ ~Good(world))
NothingFromNothing == phase = "writing" => Good(world)
Accounted == phase = "done" => wrote \cup told = DOMAIN world.outputs
Stuck == (~Ended) => ENABLED MCNext
Gen == (Emit /\ phase = "reading" /\ seen = {}) => PrintT("@@case " \o ToJson(world))
================================================================================
