------------------------------ MODULE ChainRows ------------------------------
(* What the rows of the chain files say: the Markov chains of Mcmc as seen from outside.
   A row: x (thousandths, in the coordinates of the user), key (identifies its text), lik (scaled), burn, cr, acc.
   model: vars <<[lock, lo, hi]>>, burn. *)
EXTENDS ChainFiles
VARIABLE model
RowAllowed(x) == /\ Len(x) = Len(model.vars)
                 /\ \A j \in 1..Len(x) : IF model.vars[j].lock = 1 THEN x[j] = model.vars[j].lo ELSE model.vars[j].lo <= x[j] /\ x[j] <= model.vars[j].hi
AbsR(k) == IF k < 0 THEN -k ELSE k
CRDist(p) == AbsR(p[1] + p[2] + p[3] - 1000000) <= 5 /\ \A i \in 1..3 : p[i] >= 0
\* generation tt of a run to generation m that began after generation p: is it one of those after which chains are reviewed?
Reviewed(tt, p) == (tt - p) % 10 = 0
MayCull(tt, p, m) == Reviewed(tt, p) /\ tt * 5 <= m
\* row r after row o: rejected proposals leave the state and its likelihood unchanged
RowStep(o, r, may, others) ==
  \/ r.acc = 0 /\ r.key = o.key /\ r.lik = o.lik
  \/ r.acc = 1
  \/ may /\ \E q \in others : r.key = q.key /\ r.lik = q.lik
\* rows new (one sequence per chain) of generations first, first + 1, ... of a run to m; base: the rows they continue
NewRows(n, m, p, first, base, new, table) ==
  LET most == CHOOSE k \in {Len(new[c]) : c \in 1..n} : \A c \in 1..n : Len(new[c]) <= k
      at(i) == {c \in 1..n : Len(new[c]) >= i}
      prev(c, i) == IF i = 1 THEN base[c] ELSE new[c][i - 1]
  IN \A i \in 1..most :
       LET tt == first + i - 1
       IN /\ \A c \in at(i) :
               /\ RowAllowed(new[c][i].x)
               /\ new[c][i].lik = table[new[c][i].key]
               /\ (i > 1 \/ Len(base) > 0) => RowStep(prev(c, i), new[c][i], MayCull(tt, p, m), {prev(d, i) : d \in at(i)} \union {new[d][i] : d \in at(i)})
               /\ tt < model.burn => new[c][i].burn = 1
               /\ (model.burn = 0 \/ (tt >= model.burn /\ model.burn * 5 > m)) => new[c][i].burn = 0
          /\ \A c, d \in at(i) : new[c][i].burn = new[d][i].burn /\ new[c][i].cr = new[d][i].cr
          /\ \A c \in at(i) : CRDist(new[c][i].cr)
          /\ (i > 1 /\ ~Reviewed(tt, p)) => \A c \in at(i) : new[c][i].cr = new[c][i - 1].cr
\* the first generation of a new run: a Latin hypercube
FirstRows(n, new, cells) ==
  \A c \in 1..n : Len(new[c]) > 0 =>
    /\ new[c][1].acc = 1
    /\ \A j \in 1..Len(model.vars) : model.vars[j].lock = 0 =>
         /\ cells[c][j] \in 1..n
         /\ \A d \in 1..n : (d # c /\ Len(new[d]) > 0) => cells[c][j] # cells[d][j]
LastCR(n) == {files[c][Len(files[c])].cr : c \in 1..n}
=============================================================================
