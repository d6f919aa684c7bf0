--------------------------------- MODULE Runs ---------------------------------
(* What a run of a program may depend on.
   A run has a question - program, solver, statistic, model and data, seed - and a way of being asked: how the files are
   stored and the configuration is laid out, where an option is given, how the command line is written, what else is
   printed and saved, how many threads there are, what lies around in the directory, and the environment.  The answers -
   the contents of the files written and the numbers printed - are a function of the question alone.
   A question is a record [prog, solver, stat, psf, boot, seed, id]; id stands for the model and the data. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES runs           \* what has been run: sequence of [k (question), w (way), r (result)]
rvars == <<runs>>

(* ways: one value per aspect *)
Aspect == [ store   |-> {"f64", "f32", "i16", "i32", "i64", "u16", "scaled", "extension", "gz", "cards"},
            layout  |-> {"plain", "tabs", "comments", "numbers"},
            place   |-> {"line", "file"},                     \* gain, read noise, sky, NCOMBINED; image size
            said    |-> {"plain", "scrambled"},
            talk    |-> {"normal", "quiet", "silent", "loud"},
            save    |-> {"none", "all"},
            mask    |-> {"bad1", "good1", "bad7"},            \* what the mask's values mean
            noise   |-> {"sigma", "variance", "weight"},      \* what the noise image's values mean
            threads |-> {"1", "2", "4", "default"},
            where   |-> {"here", "path"},
            left    |-> {"clean", "old"},                     \* files of earlier runs, in the way
            env     |-> {"plain", "locale", "omp", "home", "memory"} ]
Plain == [ store |-> "f64", layout |-> "plain", place |-> "line", said |-> "plain", talk |-> "normal", save |-> "all", mask |-> "bad1", noise |-> "sigma",
           threads |-> "1", where |-> "here", left |-> "clean", env |-> "plain" ]

Fitting(k) == k.prog \in {"imfit", "multimfit"} /\ k.solver # "none"
(* the random numbers: differential evolution's, the bootstrap's, the chains' *)
Random(k) == (Fitting(k) /\ (k.solver \in {"DE", "DELHS"} \/ k.boot > 0)) \/ k.prog = "imfit-mcmc"
Determined(k) == ~Random(k) \/ k.seed > 0
\* transforms may be computed in another order by another number of threads; nothing else is
Bits(k, w1, w2) == ~k.psf \/ w1.threads = w2.threads

(* what a run leaves behind *)
Files(k, w) ==
  CASE k.prog = "makeimage" -> IF w.save = "all" THEN {"image", "fluxes", "parts"} ELSE {"image"}
    [] k.prog = "makemultimages" -> {"image1", "image2"}
    [] k.prog = "imfit-mcmc" -> {"chain1", "chain2", "chain3"}
    [] k.prog = "imfit" -> (IF Fitting(k) THEN {"params"} ELSE {}) \cup (IF w.save = "all" THEN {"model", "residual", "weights"} ELSE {})
                           \cup (IF Fitting(k) /\ k.boot > 0 /\ w.save = "all" THEN {"boot"} ELSE {})
                           \cup (IF w.talk = "normal" THEN {"statistic"} ELSE {})
    [] k.prog = "multimfit" -> (IF Fitting(k) THEN {"params1", "params2", "images"} ELSE {})
                               \cup (IF Fitting(k) /\ k.boot > 0 /\ w.save = "all" THEN {"boot"} ELSE {})
                               \cup (IF w.talk = "normal" THEN {"statistic"} ELSE {})
    [] OTHER -> {}

(* results: [files |-> record: name -> contents, near |-> numbers for when the last bits may differ] *)
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= 3 + Abs(b[i]) \div 20000
Agree(k, r, w, r0, w0) ==
  IF Bits(k, w, w0) THEN \A n \in DOMAIN r.files \cap DOMAIN r0.files : r.files[n] = r0.files[n]
  ELSE (k.solver = "none" => (r.near = <<>> \/ r0.near = <<>> \/ Near(r.near, r0.near)))
\* other random numbers, other samples
Sampled(k) == IF k.prog = "imfit-mcmc" THEN {"chain1", "chain2", "chain3"} ELSE IF Fitting(k) /\ k.boot > 2 THEN {"boot"} ELSE {}
Differ(k, r, r0) == \A n \in Sampled(k) : (n \in DOMAIN r.files /\ n \in DOMAIN r0.files) => r.files[n] # r0.files[n]

Allowed(H, k, w, r) ==
  /\ DOMAIN r.files = Files(k, w)
  /\ \A i \in 1..Len(H) : LET h == H[i] IN
       /\ (h.k = k /\ Determined(k)) => Agree(k, r, w, h.r, h.w)
       /\ (h.k # k /\ h.k = [k EXCEPT !.seed = h.k.seed] /\ k.seed > 0 /\ h.k.seed > 0) => Differ(k, r, h.r)

RInit == runs = <<>>
Run(k, w, r) == Allowed(runs, k, w, r) = TRUE /\ runs' = Append(runs, [k |-> k, w |-> w, r |-> r])
=============================================================================
