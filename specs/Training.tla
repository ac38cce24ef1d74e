----------------------------- MODULE Training -----------------------------
(* The training loop of nidn (nidn/training/run_training.py) as a state machine.

   One action per way an iteration can end: the solver accepted the permittivities and the
   spectrum is physical (EvalValid), it had to be renormalised (EvalRenorm), or the solver
   rejected them with a ValueError (EvalFail).

   `par` is the displacement of a probe parameter whose gradient is pinned to one, so every
   optimiser step moves it by exactly the current learning rate: it identifies the parameter
   version *and* reveals the learning rate of every step.  Displacements are counted in units
   of LR0 / 2^H. *)
EXTENDS Num, FiniteSets
CONSTANTS H,         \* initial learning rate is 2^H units
          Patience   \* non-improving iterations after which the plateau scheduler lowers the learning rate
VARIABLES it, par, start, best, bestLoss, halvings, losses, done,
          lr,        \* current learning rate
          sbest,     \* lowest loss the scheduler has seen (renormalised spectra included)
          nbad       \* iterations since
INF == 1000000000
tvars == <<it, par, start, best, bestLoss, halvings, losses, done, lr, sbest, nbad>>

TInit(p) == /\ it = 0 /\ par = p /\ start = p /\ best = p /\ bestLoss = INF
            /\ halvings = 0 /\ losses = <<>> /\ done = FALSE
            /\ lr = Pow(2, H) /\ sbest = INF /\ nbad = 0

(* the plateau scheduler: a loss counts as an improvement if it is lower by more than 10^-4 of the best *)
Scheduler(v) == LET better == v < sbest - sbest \div 10000
                    n == IF better THEN 0 ELSE nbad + 1
                IN /\ sbest' = (IF better THEN v ELSE sbest)
                   /\ nbad' = (IF n > Patience THEN 0 ELSE n)
                   /\ lr' = (IF n > Patience THEN (lr * 66) \div 100 ELSE lr)
OptimiserStep(v) == /\ par' = par + lr
                    /\ Scheduler(v)
                    /\ losses' = Append(losses, v)
                    /\ it' = it + 1
                    /\ UNCHANGED <<halvings, start, done>>

EvalValid(v) == /\ ~done
                /\ OptimiserStep(v)
                /\ IF v < bestLoss THEN best' = par /\ bestLoss' = v
                                   ELSE UNCHANGED <<best, bestLoss>>

EvalRenorm(v) == /\ ~done
                 /\ OptimiserStep(v)
                 /\ UNCHANGED <<best, bestLoss>>

EvalFail == /\ ~done
            /\ par' = best
            /\ halvings' = halvings + 1 /\ lr' = lr \div 2
            /\ it' = it + 1
            /\ UNCHANGED <<best, bestLoss, losses, start, done, sbest, nbad>>

Finish == /\ ~done
          /\ par' = best
          /\ done' = TRUE
          /\ UNCHANGED <<it, start, best, bestLoss, halvings, losses, lr, sbest, nbad>>

(* run_training called again on the same configuration: the model is kept and trained further *)
Again == /\ done
         /\ it' = 0 /\ start' = par /\ best' = par /\ bestLoss' = INF
         /\ halvings' = 0 /\ losses' = <<>> /\ done' = FALSE
         /\ lr' = Pow(2, H) /\ sbest' = INF /\ nbad' = 0
         /\ UNCHANGED par

(* mean of the last at most 20 losses after the k-th logged one *)
Window == 20
WAvg(s, k) == LET lo == Max2(1, k - Window + 1)
              IN SumSeq(SubSeq(s, lo, k)) \div (k - lo + 1)
===========================================================================
