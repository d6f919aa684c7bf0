-------------------------------- MODULE Mcmc --------------------------------
(* The sampler of imfit-mcmc (DREAM): N Markov chains, moved generation by generation.
   Positions are integers (thousandths), log-likelihoods integers (thousandths), key identifies an exact
   parameter vector (equal keys = bit for bit equal vectors).
   cfg: n chains, vars (<<[lock, lo, hi]>>), max generations, burn-in length, noise (u, in 1/10000),
   sig (bound of the Gaussian offset, thousandths), loop (generations between reviews), collapse, adapt,
   gel (reviews between convergence tests), crit (limit of the convergence diagnostic, 1/10000). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES cfg, phase, t, pos, key, lik, hist, burnStart, inBurn, cr, curRun
mvars == <<cfg, phase, t, pos, key, lik, hist, burnStart, inBurn, cr, curRun>>
ABS(n) == IF n < 0 THEN -n ELSE n
Chains == 1..cfg.n
Dims == 1..Len(cfg.vars)
Free == {j \in Dims : cfg.vars[j].lock = 0}
NFree == Cardinality(Free)
\* the allowed region: constant prior within the limits, zero outside; fixed parameters have one value
Allowed(x) == \A j \in Dims : IF cfg.vars[j].lock = 1 THEN x[j] = cfg.vars[j].lo ELSE cfg.vars[j].lo <= x[j] /\ x[j] <= cfg.vars[j].hi

(* ---- proposals: x + (1 +- u) gamma (sum of differences of pairs of other chains) + offset, in the updated dimensions *)
MaxPairs == IF NFree >= 5 THEN (NFree - 1) \div 2 ELSE 1
\* 10000 * 2.38 / sqrt(2 d p)
Gamma == [d \in 1..8 |-> [p \in 1..3 |-> CHOOSE g \in 3000..17000 : g * g <= 566440000 \div (2 * d * p) /\ (g + 1) * (g + 1) > 566440000 \div (2 * d * p)]]
G(tt, d, p) == IF tt > 1 /\ tt % 5 = 0 THEN 10000 ELSE Gamma[d][p]
Pairs(c) == {q \in (Chains \ {c}) \X (Chains \ {c}) : q[1] # q[2]}
RECURSIVE PairSum(_, _, _)
PairSum(q, k, j) == IF k = 0 THEN 0 ELSE pos[q[k][1]][j] - pos[q[k][2]][j] + PairSum(q, k - 1, j)
Step(g, s) == (g * s) \div 10000
Near(dz, st) == ABS(dz - st) <= 8 + cfg.sig + (cfg.noise * ABS(st)) \div 10000
Jump(c, x, z, tt) ==
  LET changed == {j \in Free : z[j] # x[j]} nc == Cardinality(changed)
  IN \E p \in 1..MaxPairs : \E q \in [1..p -> Pairs(c)] :
       LET S == [j \in Dims |-> PairSum(q, p, j)]
       IN \E d \in (IF nc = 0 THEN 1 ELSE nc)..NFree :
            LET g == G(tt, d, p)
            IN /\ \A j \in changed : Near(z[j] - x[j], Step(g, S[j]))
               /\ d - nc <= Cardinality({j \in Free \ changed : Near(0, Step(g, S[j]))})

(* ---- Metropolis rule: never to a point without likelihood, always to one at least as good *)
MayAccept(l, new) == new.s = "num"
MustAccept(l, new) == new.s = "num" /\ new.v >= l
Decision(l, new, acc) == (acc = 1 => MayAccept(l, new)) /\ (acc = 0 => ~MustAccept(l, new))
\* one chain: ev is the evaluation of its proposal (on = 0: not evaluated, as nothing was updated or it lies outside)
ChainStep(c, ev, acc) == ev.on = 1 => /\ Allowed(ev.x) /\ Jump(c, pos[c], ev.x, t + 1) /\ Decision(lik[c], ev.lik, acc)
After(c, ev, acc) == IF ev.on = 1 /\ acc = 1 THEN [key |-> ev.key, x |-> ev.x, lik |-> ev.lik.v] ELSE [key |-> key[c], x |-> pos[c], lik |-> lik[c]]

(* ---- review every cfg.loop generations: outlier chains (mean log-likelihood of the last half more than two
        interquartile ranges below the first quartile) continue from the state of the best chain *)
Review(tt) == tt % cfg.loop = 0
RECURSIVE SumLik(_, _, _)
SumLik(c, a, b) == IF a > b THEN 0 ELSE hist[a][c] + SumLik(c, a + 1, b)
\* hist[g + 1] is generation g
Means(tt) == [c \in Chains |-> SumLik(c, tt \div 2 + 1, tt)]
Quart4(s, k) == LET i == (k * (cfg.n - 1)) \div 4 r == (k * (cfg.n - 1)) % 4 IN (4 - r) * s[i + 1] + (IF r = 0 THEN 0 ELSE r * s[i + 2])
\* 4 * (distance below the fence)
Below(m) == LET s == SortSeq(m, LAMBDA a, b : a < b) q1 == Quart4(s, 1) q3 == Quart4(s, 3) IN [c \in Chains |-> 3 * q1 - 2 * q3 - 4 * m[c]]
Culls(tt) == cfg.collapse = 1 /\ Review(tt) /\ tt * 5 < cfg.max
Sure(tt) == LET b == Below(Means(tt)) IN {c \in Chains : b[c] > 2}
Perhaps(tt) == LET b == Below(Means(tt)) IN {c \in Chains : b[c] >= -2}
BestOf(tt) == LET m == Means(tt) IN {c \in Chains : \A o \in Chains : m[o] <= m[c] + 2}
\* the states written for a generation, given the states the chains moved to
Written(y, w, tt) ==
  IF ~Culls(tt) THEN \A c \in Chains : w[c] = y[c]
  ELSE LET sure == Sure(tt) perhaps == Perhaps(tt)
       IN \E b \in BestOf(tt) : \A c \in Chains : (c \notin sure /\ w[c] = y[c]) \/ (c \in perhaps /\ w[c] = y[b])
\* did the review find outliers? (either answer if it cannot be told apart)
Outliers(tt) == IF ~Culls(tt) THEN {FALSE} ELSE (IF Sure(tt) # {} THEN {TRUE} ELSE IF Perhaps(tt) # {} THEN {TRUE, FALSE} ELSE {FALSE})

\* crossover probabilities: a distribution, adapted during burn-in only
CROk(p) == LET s == p[1] + p[2] + p[3] IN ABS(s - 1000000) <= 5 /\ \A i \in 1..3 : p[i] >= 0

MInit ==
  /\ cfg = [n |-> 0, vars |-> <<>>] /\ phase = "new" /\ t = 0 /\ pos = <<>> /\ key = <<>> /\ lik = <<>> /\ hist = <<>>
  /\ burnStart = 0 /\ inBurn = FALSE /\ cr = <<>> /\ curRun = 0
\* first generation: a Latin hypercube, one chain in each stratum of each free parameter (cells.c: chains not resampled)
Start(g, s, cells) ==
  /\ phase = "new" /\ phase' = "run"
  /\ cfg' = g /\ t' = 0
  /\ \A c \in 1..g.n : s[c].lik.s = "num" /\ s[c].acc = 1 /\ s[c].burn = (IF g.burn > 0 THEN 1 ELSE 0)
  /\ \A c \in 1..g.n, j \in 1..Len(g.vars) :
       IF g.vars[j].lock = 1 THEN s[c].x[j] = g.vars[j].lo ELSE g.vars[j].lo <= s[c].x[j] /\ s[c].x[j] <= g.vars[j].hi
  /\ \A j \in 1..Len(g.vars) : g.vars[j].lock = 0 =>
       \A a, b \in {c \in 1..g.n : cells[c].on = 1} : /\ cells[a].v[j] \in 1..g.n
                                                      /\ a # b => cells[a].v[j] # cells[b].v[j]
  /\ pos' = [c \in 1..g.n |-> s[c].x] /\ key' = [c \in 1..g.n |-> s[c].key] /\ lik' = [c \in 1..g.n |-> s[c].lik.v]
  /\ hist' = <<[c \in 1..g.n |-> s[c].lik.v]>>
  /\ burnStart' = 0 /\ inBurn' = (g.burn > 0) /\ curRun' = 0
  /\ \A c \in 1..g.n : s[c].cr = s[1].cr
  /\ CROk(s[1].cr) /\ cr' = s[1].cr
\* is the convergence diagnostic looked at in generation tt?
Tests(tt, burning) == Review(tt) /\ ~burning /\ curRun + 1 >= cfg.gel
\* diagnostics rhat of the free parameters (1/10000); within a per mille of the limit either answer is right
MayConverge(rhat) == \A i \in 1..Len(rhat) : rhat[i] <= cfg.crit + 10
MayGoOn(rhat) == \E i \in 1..Len(rhat) : rhat[i] >= cfg.crit - 10
\* one generation; w: what the chain files say
Generation(ev, w, rhat) ==
  /\ phase = "run" /\ t + 1 < cfg.max
  /\ LET tt == t + 1
         y == [c \in Chains |-> After(c, ev[c], w[c].acc)]
     \* (compared with TRUE so that TLC looks for one witness, not for all of them)
     IN /\ (\A c \in Chains : ChainStep(c, ev[c], w[c].acc)) = TRUE
        /\ Written(y, [c \in Chains |-> [key |-> w[c].key, x |-> w[c].x, lik |-> w[c].lik]], tt) = TRUE
        /\ \E out \in Outliers(tt) :
             LET back == out /\ ~inBurn /\ cfg.burn > 0
                 start == IF back THEN tt ELSE burnStart
                 burning == inBurn \/ back
             IN /\ burnStart' = start
                /\ \A c \in Chains : w[c].burn = (IF tt < start + cfg.burn THEN 1 ELSE 0)
                /\ IF ~Review(tt) THEN UNCHANGED <<inBurn, curRun>>
                   ELSE IF burning THEN inBurn' = (tt < start + cfg.burn) /\ curRun' = (IF back THEN 0 ELSE curRun)
                   ELSE /\ inBurn' = FALSE
                        /\ IF Tests(tt, burning) THEN MayGoOn(rhat) /\ curRun' = 0 ELSE curRun' = curRun + 1
        /\ \A c \in Chains : w[c].cr = w[1].cr
        /\ CROk(w[1].cr) /\ (w[1].cr = cr \/ (inBurn /\ cfg.adapt = 1 /\ Review(tt)))
        /\ t' = tt
  /\ pos' = [c \in Chains |-> w[c].x] /\ key' = [c \in Chains |-> w[c].key] /\ lik' = [c \in Chains |-> w[c].lik]
  /\ hist' = Append(hist, [c \in Chains |-> w[c].lik])
  /\ cr' = w[1].cr /\ UNCHANGED <<cfg, phase>>
\* re-evaluations (during burn-in) are of the current states
Again(c, k) == phase = "run" /\ key[c] = k /\ UNCHANGED mvars
\* the run ends after cfg.max generations, or when a convergence test succeeds (that generation is not written)
Ended(converged, rhat) ==
  /\ phase = "run" /\ phase' = "done"
  /\ IF converged = 0 THEN t + 1 >= cfg.max
     ELSE t + 1 < cfg.max /\ Tests(t + 1, inBurn) /\ MayConverge(rhat)
  /\ UNCHANGED <<cfg, t, pos, key, lik, hist, burnStart, inBurn, cr, curRun>>

(* ---- statistics pooled over many decisions *)
\* worse by d (in [(b-1)/4, b/4)) is accepted with probability exp(-d)
ExpT == <<10000, 7788, 6065, 4724, 3679, 2865, 2231, 1738, 1353, 1054, 821, 639, 498>>
\* n trials, k successes, probability between lo and hi (1/10000): within six standard deviations
Within(n, k, lo, hi) ==
  LET dl == (n * lo) \div 100 - 100 * k dh == 100 * k - (n * hi) \div 100
  IN /\ n <= 20000
     /\ IF dl <= 0 THEN TRUE ELSE IF dl > 46000 THEN FALSE ELSE dl * dl <= 90000 * n + 10000
     /\ IF dh <= 0 THEN TRUE ELSE IF dh > 46000 THEN FALSE ELSE dh * dh <= 90000 * n + 10000
Accepts(bins) == \A b \in 1..12 : Within(bins[b][1], bins[b][2], ExpT[b + 1], ExpT[b])
\* without adaptation each of the three crossover values 1/3, 2/3, 1 is used equally often
Crosses(d, n, none, all) ==
  LET p0 == <<3333, 1851, 1111, 699, 452>>[d] pall == <<6667, 5185, 4444, 4033, 3786>>[d]
  IN Within(n, none, p0, p0 + 1) /\ Within(n, all, pall - 1, pall + 1)
=============================================================================
