-------------------------- MODULE Trace_Training --------------------------
(* Replays recorded trainings.  Each line is one history:
     [type, L, abs, wreg, tr, tt, runs: Seq([ev: Seq([o, R, T, P]), evals, final, best,
                                         loss, l1, wavg, outcome])]
   with R, T, P (spectra, material probabilities) and losses in units of 10^-4 and
   displacements in units of LR0 / 2^H.  Losses are recomputed here from the spectra. *)
EXTENDS Training, TLC, Json
VARIABLES l, r, k, bad
Trace == ndJsonDeserialize("trace.ndjson")
U == IF Trace[l].fine THEN 100000000 ELSE 10000          \* fine: L = 1, no absorption, no regularisation, no renormalisation
EvalTol == IF H > 15 THEN 1000 ELSE 1

Rec == Trace[l]
Run == Rec.runs[r]
Ev == Run.ev[k]

PowU(x, L) == IF L = 1 THEN x ELSE IF L = 2 THEN (x * x) \div U ELSE (((x * x) \div U) * x) \div U
Term(e, i, L, abs) ==
  LET s == e.R[i] + e.T[i]
      R == IF e.o = "renorm" /\ s > U THEN (e.R[i] * U) \div s ELSE e.R[i]
      T == IF e.o = "renorm" /\ s > U THEN (e.T[i] * U) \div s ELSE e.T[i]
  IN PowU(Abs(R - Rec.tr[i]), L) + PowU(Abs(T - Rec.tt[i]), L)
     + (IF abs THEN PowU(Abs((U - R - T) - (U - Rec.tr[i] - Rec.tt[i])), L) ELSE 0)
SpecLoss(e, L, abs) == SumSeq([i \in 1..Len(e.R) |-> Term(e, i, L, abs)])
                    \div ((IF abs THEN 3 ELSE 2) * Len(e.R))
RegLoss(e) == IF Len(e.P) = 0 THEN 0
           ELSE SumSeq([i \in 1..Len(e.P) |-> Min2(PowU(e.P[i], Rec.L), PowU(U - e.P[i], Rec.L))]) \div Len(e.P)
TotalOf(e) == SpecLoss(e, Rec.L, Rec.abs) + (Rec.wreg * RegLoss(e)) \div U
Total == TotalOf(Ev)
L1 == SpecLoss(Ev, 1, FALSE)

LogTol == 6
Idx == Len(losses) + 1                    \* position of this iteration's log entry

Init == TInit(0) /\ l = 1 /\ r = 1 /\ k = 1 /\ bad = {}

Clause(ok, name) == IF ok THEN {} ELSE {name}
Got(s, i) == IF i <= Len(s) THEN s[i] ELSE NaN

(* the parameters the implementation evaluated at this iteration *)
EvalClauses == Clause(Near(Got(Run.evals, k), par, EvalTol),
                      IF k > 1 /\ Run.ev[k - 1].o = "fail" THEN "c02_rollback_or_learning_rate" ELSE "c02_step")
LogClauses == Clause(Near(Got(Run.loss, Idx), Total, LogTol), "c02_loss_log")
              \cup Clause(Near(Got(Run.l1, Idx), L1, LogTol), "c02_l1_log")
              \cup Clause(Near(Got(Run.wavg, Idx), WAvg(Append(losses, Total), Idx), LogTol), "c02_weighted_average")

More == l <= Len(Trace) /\ k <= Len(Run.ev)
TValid == /\ More /\ Ev.o = "valid" /\ EvalValid(Total)
          /\ bad' = bad \cup EvalClauses \cup LogClauses /\ k' = k + 1 /\ UNCHANGED <<l, r>>
TRenorm == /\ More /\ Ev.o = "renorm" /\ EvalRenorm(Total)
           /\ bad' = bad \cup EvalClauses \cup LogClauses /\ k' = k + 1 /\ UNCHANGED <<l, r>>
TFail == /\ More /\ Ev.o = "fail" /\ EvalFail
         /\ bad' = bad \cup EvalClauses /\ k' = k + 1 /\ UNCHANGED <<l, r>>

(* C01 is judged on the parameters the implementation actually evaluated *)
ValidIdx == {i \in 1..Len(Run.ev) : Run.ev[i].o = "valid"}
ObsBest == IF ValidIdx = {} THEN Got(Run.evals, 1)
           ELSE LET m == CHOOSE i \in ValidIdx :
                     \A j \in ValidIdx : LET a == TotalOf(Run.ev[i]) b == TotalOf(Run.ev[j])
                                           IN a < b \/ (a = b /\ i <= j)
                IN Got(Run.evals, m)
FinalClauses ==
  Clause(Run.outcome = "ok", "c02_training_raised") \cup
  (* optimiser steps seen by the recorder: one per evaluated iteration, with the gradient of that iteration *)
  Clause(Run.steps # <<>> => Run.steps = SelectSeq([i \in 1..Len(Run.ev) |-> i], LAMBDA i : Run.ev[i].o # "fail"), "c02_optimiser_steps") \cup
  Clause(Run.wrong_grad = 0, "c02_gradient_of_the_iteration") \cup
  Clause(Len(Run.evals) = Len(Run.ev), "c02_iterations") \cup
  Clause(Len(Run.loss) = Len(losses) /\ Len(Run.l1) = Len(losses) /\ Len(Run.wavg) = Len(losses), "c02_log_length") \cup
  (IF Run.outcome # "ok" THEN {} ELSE
   Clause(Near(Run.final, ObsBest, 0), "c01_returned_parameters") \cup
   Clause(Near(Run.best, ObsBest, 0), "c01_best_snapshot"))
TFinish == /\ l <= Len(Trace) /\ k = Len(Run.ev) + 1 /\ ~done
           /\ Finish /\ bad' = bad \cup FinalClauses /\ UNCHANGED <<l, r, k>>
TAgain == /\ done /\ r < Len(Rec.runs) /\ Again /\ r' = r + 1 /\ k' = 1 /\ UNCHANGED <<l, bad>>
TNextLine == /\ done /\ r = Len(Rec.runs)
             /\ IF bad = {} THEN TRUE ELSE PrintT(ToJson([reject |-> l, clauses |-> bad]))
             /\ IF l = Len(Trace) THEN PrintT(ToJson([validated |-> l])) ELSE TRUE
             /\ l' = l + 1 /\ r' = 1 /\ k' = 1 /\ bad' = {}
             /\ it' = 0 /\ par' = 0 /\ start' = 0 /\ best' = 0 /\ bestLoss' = INF
             /\ halvings' = 0 /\ losses' = <<>> /\ done' = FALSE
             /\ lr' = Pow(2, H) /\ sbest' = INF /\ nbad' = 0
Next == TValid \/ TRenorm \/ TFail \/ TFinish \/ TAgain \/ TNextLine
Post == TRUE
===========================================================================
