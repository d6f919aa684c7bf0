---------------------------- MODULE MCChainFiles ----------------------------
(* every history of up to Depth runs; rows are tagged with the generation they stand for *)
EXTENDS ChainFiles, Json
CONSTANTS Depth, N, Sizes, Emit
VARIABLES ev
Tag(from, k) == [i \in 1..k |-> from + i]
Lens(n, m) == {f \in [1..n -> 0..m] : Partial(f, n, m)}
Case(e) == ev' = Append(ev, e)
MCInit == FInit /\ ev = <<>>
DoFresh(n, m) == Fresh(n, m, [c \in 1..n |-> Tag(0, m)]) /\ Case([e |-> "fresh", n |-> n, m |-> m, lens |-> [c \in 1..n |-> m]])
DoFreshKilled(n, m) == \E f \in Lens(n, m) : FreshKilled(n, m, [c \in 1..n |-> Tag(0, f[c])]) /\ Case([e |-> "freshkilled", n |-> n, m |-> m, lens |-> f])
DoAppend(n, m) == /\ CanResume(n)
                  /\ Appended(n, m, [c \in 1..n |-> Tag(Common(n), Missing(n, m))])
                  /\ Case([e |-> "append", n |-> n, m |-> m, lens |-> [c \in 1..n |-> Missing(n, m)]])
DoAppendKilled(n, m) == /\ CanResume(n) /\ Missing(n, m) > 0
                        /\ \E f \in Lens(n, Missing(n, m)) : /\ AppendKilled(n, m, [c \in 1..n |-> Tag(Common(n), f[c])])
                                                              /\ Case([e |-> "appendkilled", n |-> n, m |-> m, lens |-> f])
DoRefused(n, m) == Refused(n) /\ Case([e |-> "refused", n |-> n, m |-> m, lens |-> [c \in 1..n |-> 0]])
DoRemove(c) == Remove(c) /\ Case([e |-> "remove", n |-> c, m |-> 0, lens |-> <<>>])
MCNext == /\ Len(ev) < Depth
          /\ \/ \E n \in N, m \in Sizes : DoFresh(n, m) \/ DoAppend(n, m) \/ DoRefused(n, m)
             \/ \E n \in N, m \in Sizes : DoFreshKilled(n, m) \/ DoAppendKilled(n, m)
             \/ \E c \in DOMAIN files : DoRemove(c)
MCSpec == MCInit /\ [][MCNext]_<<files, ev>>
\* what a complete run, or a complete continuation, leaves: every generation up to m in every chain
Ran(i) == ev[i].e \in {"fresh", "append"}
AllGenerations ==
  LET k == Len(ev)
  IN k > 0 /\ Ran(k) => \A c \in 1..ev[k].n, g \in 1..ev[k].m : \E i \in 1..Len(files[c]) : files[c][i] = g
\* a continuation never loses a row
NothingLost == [][(Len(ev') > 0 /\ ev'[Len(ev')].e \in {"append", "appendkilled", "refused"}) =>
                    \A c \in DOMAIN files : SubSeq(files'[c], 1, Len(files[c])) = files[c]]_<<files, ev>>
\* however often a run is killed, one that is left alone completes
Completes == \A n \in N, m \in Sizes : CanResume(n) => Common(n) + Missing(n, m) >= m
Gen == (Emit /\ Len(ev) = Depth) => PrintT("@@case " \o ToJson([ev |-> ev]))
=============================================================================
