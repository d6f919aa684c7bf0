------------------------------ MODULE MCFitStat ------------------------------
(* Exhaustive exploration of FitStat on tiny images; invariants, and sessions printed as test cases *)
EXTENDS FitStat, Json

CONSTANTS Datas, Masks, Errs, Charss, Stats, Models, Emit

Next ==
  \/ \E d \in Datas : LoadData(d)
  \/ mask = NoMask /\ err = NoErr /\ chars = DefaultChars /\ stat = "chi2" /\ \E m \in Masks : LoadMask(m)
  \/ err = NoErr /\ chars = DefaultChars /\ stat = "chi2" /\ \E e \in Errs : LoadErrors(e)
  \/ chars = DefaultChars /\ stat = "chi2" /\ \E h \in Charss : h # DefaultChars /\ SetChars(h)
  \/ stat = "chi2" /\ \E s \in Stats : s # "chi2" /\ ChooseStat(s)
  \/ Finalise
  \/ model = NoModel /\ \E m \in Models : Evaluate(m)
MSpec == FInit /\ [][Next]_fvars

Done == model # NoModel
All(P(_,_)) == \A x \in 1..Nx, y \in 1..Ny : P(x, y)
\* chi^2 and the likelihood ratio cannot be negative (up to rounding of the logarithms)
NonNegative == (Done /\ stat # "cash") => value >= -NValid * (IF stat = "mlr" THEN 200 ELSE 0)
\* a perfect model
Perfect == (Done /\ stat # "cash" /\ All(LAMBDA x, y : Valid(x, y) => data[y][x].v = ModelAt(model, x, y))) => value = 0
\* Cash and the likelihood ratio differ by a constant that depends on the data only
CashMlr == (Done /\ stat = "mlr") =>
  LET cash == SumSeqOf(LAMBDA y : SumSeqOf(LAMBDA x : IF Valid(x, y) THEN CashTerm(data[y][x].v, ModelAt(model, x, y)) ELSE 0, 1, Nx), 1, Ny)
      const == SumSeqOf(LAMBDA y : SumSeqOf(LAMBDA x : IF Valid(x, y) THEN MlrTerm(data[y][x].v, data[y][x].v) - CashTerm(data[y][x].v, data[y][x].v) ELSE 0, 1, Nx), 1, Ny)
  IN (\A p \in Pixels : data[p[2]][p[1]].v + chars.sky > 0) => value - cash - const <= 4 * NValid /\ cash + const - value <= 4 * NValid
\* only valid pixels matter: recomputed from the set of valid pixels, in any order
RECURSIVE SumSet(_)
SumSet(S) == IF S = {} THEN 0 ELSE LET p == CHOOSE q \in S : TRUE IN Term(p[1], p[2], ModelAt(model, p[1], p[2])) + SumSet(S \ {p})
OnlyValid == Done => value = SumSet(Pixels)
\* a session that was accepted has at least one valid pixel, each with a usable positive noise
Accepted == phase = "ready" => NValid > 0 /\ \A p \in Pixels : stat # "chi2model" => Weight2(p[1], p[2], 1).d > 0
\* nothing masked is ever valid
MaskWins == \A x \in 1..(IF data = <<>> THEN 0 ELSE Nx), y \in 1..Ny : ~ Unmasked(x, y) => ~ Valid(x, y)

Case == [data |-> data, mask |-> mask, err |-> err, chars |-> chars, stat |-> stat, model |-> model, refused |-> IF phase = "refused" THEN 1 ELSE 0]
Gen == (Emit /\ (Done \/ phase = "refused")) => PrintT("@@case " \o ToJson(Case))
=============================================================================
