--------------------------- MODULE Gen_Training ---------------------------
(* All histories of iteration outcomes up to a length, with the properties C01/C02 stated over
   the history (not over the bookkeeping variables the loop uses). *)
EXTENDS Training, TLC, Json
CONSTANTS Lens, Valids, Renorms, Runs, MaxFail, Cyclic, Plateau, FailAt
VARIABLES len, hist, run, script
gvars == <<tvars, len, hist, run, script>>

Init == /\ TInit(0) /\ len \in Lens /\ hist = <<>> /\ run = 1 /\ script = <<<<>>>>

Rec(o, v) == /\ hist' = Append(hist, [o |-> o, v |-> v, p |-> par])
             /\ script' = [script EXCEPT ![run] = Append(@, [o |-> o, v |-> v])]
             /\ UNCHANGED <<len, run>>
DoValid == it < len /\ it \notin FailAt /\
           \E v \in Valids : (Cyclic => v = 2 * (1 + (it % 3))) /\ (Plateau => v = (IF it < 40 THEN 6 ELSE 4)) /\ EvalValid(v) /\ Rec("valid", v)
DoRenorm == it < len /\ \E v \in Renorms : EvalRenorm(v) /\ Rec("renorm", v)
DoFail == it < len /\ (FailAt # {} => it \in FailAt) /\ halvings < MaxFail /\ EvalFail /\ Rec("fail", 0)
DoFinish == it = len /\ Finish /\ UNCHANGED <<len, hist, run, script>>
DoAgain == /\ run < Runs /\ Again /\ run' = run + 1 /\ hist' = <<>>
           /\ script' = Append(script, <<>>) /\ UNCHANGED len
Next == DoValid \/ DoRenorm \/ DoFail \/ DoFinish \/ DoAgain

ValidIdx == {i \in 1..Len(hist) : hist[i].o = "valid"}
(* C01 *)
BestOf == IF ValidIdx = {} THEN start
          ELSE LET m == CHOOSE i \in ValidIdx :
                          \A j \in ValidIdx : hist[i].v < hist[j].v \/ (hist[i].v = hist[j].v /\ i <= j)
               IN hist[m].p
BestIsBestValid == best = BestOf
ReturnsBest == done => par = BestOf
(* C02 *)
Fails == Cardinality({i \in 1..Len(hist) : hist[i].o = "fail"})
HalvedPerFailure == halvings = Fails /\ (Len(losses) <= Patience => lr = Pow(2, H) \div Pow(2, halvings))
LoggedExactly == Len(losses) = Len(hist) - Fails
AllIterations == done => it = len
RollBack == [][ (it' = it + 1 /\ halvings' = halvings + 1) => (par' = best /\ losses' = losses) ]_gvars
StepMoves == [][ (it' = it + 1 /\ halvings' = halvings) => (par' = par + lr /\ Len(losses') = Len(losses) + 1) ]_gvars
(* between failures the learning rate only changes after more than Patience iterations without improvement *)
LrSteady == [][ (it' = it + 1 /\ halvings' = halvings /\ nbad < Patience) => lr' = lr ]_gvars
LrNeverGrows == [][ ~done => lr' <= lr ]_gvars
BestNeverIncreases == [][ ~done => bestLoss' <= bestLoss ]_gvars
Emit == IF done /\ run = Runs THEN PrintT(ToJson([script |-> script])) ELSE TRUE
===========================================================================
