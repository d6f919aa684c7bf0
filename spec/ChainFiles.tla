----------------------------- MODULE ChainFiles -----------------------------
(* The chain files of imfit-mcmc over a history of runs: complete runs, runs that are killed at any row, files
   that are removed, and runs with --append that continue what is there.
   files[c]: the rows of chain c, for the chains whose file exists.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES files
There(c) == c \in DOMAIN files
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
AllThere(n) == \A c \in 1..n : There(c)
\* generations complete in every chain: a run is continued from the last of them
Common(n) == Least({Len(files[c]) : c \in 1..n})
CanResume(n) == AllThere(n) /\ Common(n) > 0
\* rows each chain must get so that every chain reaches generation m (none if it is there already)
Missing(n, m) == IF m > Common(n) THEN m - Common(n) ELSE 0
\* rows are written generation by generation, chain by chain: a killed run leaves the same number in every chain, plus one in the first few
Partial(lens, n, m) == /\ \A c \in 1..n : lens[c] \in 0..m
                       /\ \A c \in 1..(n - 1) : lens[c + 1] \in {lens[c] - 1, lens[c]}
                       /\ lens[1] - lens[n] \in {0, 1}
FInit == files = <<>>
Put(n, new) == [c \in (DOMAIN files) \union 1..n |-> IF c \in 1..n THEN new[c] ELSE files[c]]
\* a new run replaces what was there
Fresh(n, m, new) == /\ \A c \in 1..n : Len(new[c]) = m
                    /\ files' = Put(n, new)
FreshKilled(n, m, new) == /\ Partial([c \in 1..n |-> Len(new[c])], n, m)
                          /\ files' = Put(n, new)
Extend(n, new) == Put(n, [c \in 1..n |-> files[c] \o new[c]])
Appended(n, m, new) == /\ CanResume(n)
                       /\ \A c \in 1..n : Len(new[c]) = Missing(n, m)
                       /\ files' = Extend(n, new)
AppendKilled(n, m, new) == /\ CanResume(n)
                           /\ Partial([c \in 1..n |-> Len(new[c])], n, Missing(n, m))
                           /\ files' = Extend(n, new)
Refused(n) == ~CanResume(n) /\ UNCHANGED files
Remove(c) == There(c) /\ files' = [k \in (DOMAIN files) \ {c} |-> files[k]]
=============================================================================
