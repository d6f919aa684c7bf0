-------------------------------- MODULE MCRuns --------------------------------
(* Questions asked in several ways: a program whose answers depend on the question alone is always allowed, one that
   looks at the way it is asked is not.  Every question with the ways it is asked in is printed for replay. *)
EXTENDS Runs, Json
CONSTANTS Emit, MaxRuns
VARIABLES leak            \* the aspect a dishonest program looks at ("" for none)
Stats == {"chi", "model", "error", "cash", "mlr"}
Q(p, s, st, psf, boot, seed) == [prog |-> p, solver |-> s, stat |-> st, psf |-> psf, boot |-> boot, seed |-> seed, id |-> 0]
Questions ==
  { Q("makeimage", "none", "chi", psf, 0, 0) : psf \in BOOLEAN } \cup { Q("makemultimages", "none", "chi", psf, 0, 0) : psf \in BOOLEAN }
  \cup { Q("imfit", "none", st, psf, 0, 0) : st \in Stats, psf \in BOOLEAN }
  \cup { Q("multimfit", "none", st, FALSE, 0, 0) : st \in Stats }
  \cup { Q("imfit", s, st, psf, 0, seed) : s \in {"LM", "NM", "DE", "DELHS", "SBPLX", "BOBYQA"}, st \in {"chi", "error", "mlr"}, psf \in BOOLEAN, seed \in {0, 1} }
  \cup { Q("imfit", s, st, psf, 4, seed) : s \in {"LM", "NM", "DE"}, st \in {"chi", "mlr"}, psf \in BOOLEAN, seed \in {0, 1, 2} }
  \cup { Q("multimfit", s, st, FALSE, 0, 1) : s \in {"LM", "NM", "DE"}, st \in {"chi", "mlr"} }
  \cup { Q("multimfit", s, st, FALSE, 4, seed) : s \in {"LM", "NM", "DE"}, st \in {"chi", "mlr"}, seed \in {1, 2} }
  \cup { Q("imfit-mcmc", "none", st, psf, 0, seed) : st \in {"chi", "mlr"}, psf \in BOOLEAN, seed \in {1, 2} }

\* ways that differ from the plain one in a single aspect
Single == UNION { { [Plain EXCEPT ![a] = v] : v \in Aspect[a] } : a \in DOMAIN Aspect }

(* programs: the contents of a file, given the question, the way and how often it ran before *)
Contents(k, w, n, i) == [files |-> [f \in Files(k, w) |-> <<k, f, IF leak # "" THEN w[leak] ELSE "", IF Determined(k) THEN 0 ELSE i>>],
                         near |-> <<1000, IF leak # "" /\ w[leak] # Plain[leak] THEN 1001 ELSE 1000>>]
vars == <<runs, leak>>
MCInit == RInit /\ leak \in {""} \cup DOMAIN Aspect
\* the first run is the plain one; honest programs may go on for ever
Ask(k, w) == /\ Len(runs) < MaxRuns /\ (runs = <<>> => w = Plain) /\ (runs # <<>> => [k EXCEPT !.seed = 0] = [runs[1].k EXCEPT !.seed = 0])
             /\ Run(k, w, Contents(k, w, Len(runs), Len(runs))) /\ UNCHANGED leak
MCNext == \E k \in Questions, w \in Single : Ask(k, w)
MCSpec == MCInit /\ [][MCNext]_vars

\* an honest program may answer any question of the same kind in any way
Honest == (leak = "" /\ runs # <<>> /\ Len(runs) < MaxRuns) =>
  \A w \in Single : Allowed(runs, runs[1].k, w, Contents(runs[1].k, w, 1, Len(runs)))
\* a program that looks at the way it is asked is found out as soon as two ways differ in that
Sharp == (leak # "" /\ leak # "threads" /\ runs # <<>> /\ Determined(runs[1].k)) =>
  \A v \in Aspect[leak] : LET w == [Plain EXCEPT ![leak] = v] IN
     (v # Plain[leak] /\ Files(runs[1].k, w) \cap Files(runs[1].k, Plain) # {}) => ~Allowed(runs, runs[1].k, w, Contents(runs[1].k, w, 1, Len(runs)))
Threads == (leak = "threads" /\ runs # <<>> /\ Determined(runs[1].k) /\ ~runs[1].k.psf) =>
  \A v \in Aspect.threads \ {"1"} : LET w == [Plain EXCEPT !.threads = v] IN ~Allowed(runs, runs[1].k, w, Contents(runs[1].k, w, 1, Len(runs)))
\* runs without a seed may do as they like, runs with different seeds must not
Seeds == \A i, j \in 1..Len(runs) : (i # j /\ runs[i].k.seed > 0 /\ runs[j].k.seed > 0 /\ runs[i].k.seed # runs[j].k.seed) =>
  \A n \in Sampled(runs[i].k) : (n \in DOMAIN runs[i].r.files /\ n \in DOMAIN runs[j].r.files) => runs[i].r.files[n] # runs[j].r.files[n]
Repeats == \A i, j \in 1..Len(runs) : (runs[i].k = runs[j].k /\ Determined(runs[i].k) /\ leak = "") => Agree(runs[i].k, runs[i].r, runs[i].w, runs[j].r, runs[j].w)
Gen == (Emit /\ leak = "" /\ Len(runs) = 2 /\ runs[1].k = runs[2].k) => PrintT("@@case " \o ToJson([k |-> runs[1].k, w |-> runs[2].w]))
=============================================================================
