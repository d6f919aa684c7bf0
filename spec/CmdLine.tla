------------------------------ MODULE CmdLine ------------------------------
(* The command line as documented: a sequence of words read from left to right.
   A word [d, name, eq, val, raw]: d = 1 when it begins with dashes; then name is what stands between the dashes
   and the first "=", eq = 1 when there is something after an "=", val is that something.  raw is the whole word.
   Options are defined by Kind, a function from every accepted name to [id, kind]; names with the same id are the
   short and long form of one option.  kind: "flag", "opt" (first value counts) or "queue" (all values, in order). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANT Nothing
VARIABLES rest, flags, vals, args, st, pend
lvars == <<rest, flags, vals, args, st, pend>>

\* st: "run", "ok", "err".  pend: the option waiting for its value, or Nothing
LInit(ws) == rest = ws /\ flags = {} /\ vals = << >> /\ args = <<>> /\ st = "run" /\ pend = Nothing
Drop == rest' = Tail(rest)
Add(id, v) == vals' = (id :> (IF id \in DOMAIN vals THEN Append(vals[id], v) ELSE <<v>>)) @@ vals

Value ==
  /\ st = "run" /\ pend # Nothing /\ rest # <<>>
  /\ Add(pend, Head(rest).raw) /\ pend' = Nothing /\ Drop
  /\ UNCHANGED <<flags, args, st>>
Argument ==
  /\ st = "run" /\ pend = Nothing /\ rest # <<>> /\ Head(rest).d = 0
  /\ args' = Append(args, Head(rest).raw) /\ Drop
  /\ UNCHANGED <<flags, vals, st, pend>>
Option(Kind, strict) ==
  /\ st = "run" /\ pend = Nothing /\ rest # <<>> /\ Head(rest).d = 1
  /\ LET w == Head(rest) IN
     IF w.name = "" /\ w.eq = 0 THEN st' = "err" /\ UNCHANGED <<rest, flags, vals, args, pend>>
     ELSE IF w.name \notin DOMAIN Kind THEN
       IF strict = 1 THEN st' = "err" /\ UNCHANGED <<rest, flags, vals, args, pend>>
       ELSE Drop /\ UNCHANGED <<flags, vals, args, st, pend>>
     ELSE LET o == Kind[w.name] IN
       /\ Drop /\ UNCHANGED <<args, st>>
       /\ IF o.kind = "flag" THEN flags' = flags \union {o.id} /\ UNCHANGED <<vals, pend>>
          ELSE IF w.eq = 1 THEN Add(o.id, w.val) /\ UNCHANGED <<flags, pend>>
          ELSE pend' = o.id /\ UNCHANGED <<flags, vals>>
End ==
  /\ st = "run" /\ rest = <<>>
  /\ st' = (IF pend = Nothing THEN "ok" ELSE "err")
  /\ UNCHANGED <<rest, flags, vals, args, pend>>
LNext(Kind, strict) == Value \/ Argument \/ Option(Kind, strict) \/ End

IsSet(id) == id \in DOMAIN vals
First(id) == vals[id][1]
============================================================================
