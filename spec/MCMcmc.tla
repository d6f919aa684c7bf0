------------------------------- MODULE MCMcmc -------------------------------
(* Mcmc on a lattice: three chains, one free and one fixed parameter, every likelihood ordering, every proposal *)
EXTENDS Mcmc
CONSTANTS Depth
P == {0, 1000, 2000}
Tables == {[x \in P |-> IF x = 0 THEN a ELSE IF x = 1000 THEN b ELSE c] : a, b \in {-9000, -400, 0}, c \in {-400}}
VARIABLE L
Row(x, a, b, k) == [key |-> x, x |-> <<x, 500>>, lik |-> L[x], burn |-> b, cr |-> k, acc |-> a]
CR0 == <<333333, 333333, 333334>>
CRs == {CR0, <<500000, 250000, 250000>>}
Cfg == [n |-> 3, vars |-> <<[lock |-> 0, lo |-> 0, hi |-> 2000], [lock |-> 1, lo |-> 500, hi |-> 500]>>, max |-> 13, burn |-> 1,
        noise |-> 3000, sig |-> 1, loop |-> 1, collapse |-> 1, adapt |-> 1, gel |-> 1, crit |-> 12000]
MCInit == MInit /\ L \in Tables
MCStart ==
  \E f \in [1..3 -> P] :
    /\ \A a, b \in 1..3 : a # b => f[a] # f[b]
    /\ Start(Cfg, [c \in 1..3 |-> [key |-> f[c], x |-> <<f[c], 500>>, lik |-> [s |-> "num", v |-> L[f[c]]], burn |-> 1, cr |-> CR0, acc |-> 1]],
             [c \in 1..3 |-> [on |-> 1, v |-> <<f[c] \div 1000 + 1, 1>>]])
Off == [on |-> 0, key |-> 0, x |-> <<0, 0>>, lik |-> [s |-> "low", v |-> 0]]
On(z) == [on |-> 1, key |-> z, x |-> <<z, 500>>, lik |-> [s |-> "num", v |-> L[z]]]
Choices(c) == {<<Off, 0>>, <<Off, 1>>} \union {<<On(z), a>> : z \in P, a \in {0, 1}}
Good(c) == {o \in Choices(c) : ChainStep(c, o[1], o[2])}
MCGen ==
  /\ phase = "run" /\ t < Depth
  /\ \E o1 \in Good(1), o2 \in Good(2), o3 \in Good(3) :
      LET o == <<o1, o2, o3>>
          y == [c \in 1..3 |-> After(c, o[c][1], o[c][2])]
          zs == {y} \union (IF Culls(t + 1) THEN {[c \in 1..3 |-> IF c \in k THEN y[b] ELSE y[c]] : k \in SUBSET Perhaps(t + 1), b \in BestOf(t + 1)} ELSE {})
      IN \E z \in zs, b \in (IF cfg.burn > 0 THEN {0, 1} ELSE {0}), k \in (IF inBurn THEN CRs ELSE {cr}), r \in (IF inBurn THEN {<<11000>>} ELSE {<<11000>>, <<13000>>}) :
           Generation([c \in 1..3 |-> o[c][1]], [c \in 1..3 |-> Row(z[c].x[1], o[c][2], b, k)], r)
MCEnd == \E cv \in {0, 1}, r \in {<<11000>>, <<13000>>} : Ended(cv, r)
MCNext == (MCStart \/ MCGen \/ MCEnd) /\ UNCHANGED L
MCSpec == MCInit /\ [][MCNext]_<<mvars, L>>
(* no chain ever leaves the allowed region, fixed parameters stay, likelihoods are those of the states *)
InRegion == \A c \in 1..Len(pos) : Allowed(pos[c])
LikOfState == \A c \in 1..Len(pos) : lik[c] = L[pos[c][1]] /\ key[c] = pos[c][1]
HistWhole == phase = "run" => Len(hist) = t + 1 /\ hist[t + 1] = lik
\* the best state any chain has is not lost by the review
\* convergence is never declared during burn-in
NotInBurn == [][phase = "run" /\ phase' = "done" /\ t + 1 < cfg.max => ~inBurn]_<<mvars, L>>
\* a chain changes only to the point it proposed, or to a state another chain has
Lawful == [][phase = "run" /\ phase' = "run" => \A c \in 1..3 : pos'[c] # pos[c] =>
              Jump(c, pos[c], pos'[c], t + 1) \/ (Culls(t + 1) /\ \E b \in 1..3 : b # c /\ (pos'[c] = pos[b] \/ Jump(b, pos[b], pos'[c], t + 1)))]_<<mvars, L>>
\* where a jump is possible, so is the way back (pairs can be taken in either order): the chains are reversible
Reversible == phase = "run" => \A c \in {1}, x, z \in P : Jump(c, <<x, 500>>, <<z, 500>>, t + 1) <=> Jump(c, <<z, 500>>, <<x, 500>>, t + 1)
ASSUME \A d \in 1..7, p \in 1..3 : Gamma[d][p] >= Gamma[d + 1][p]
=============================================================================
