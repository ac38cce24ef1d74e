------------------------------ MODULE Gen_C04 ------------------------------
(* Edits the default configuration step by step: at most MaxDev replaced entries, one removed
   key, one added key. *)
EXTENDS C04, Json
CONSTANTS MaxDev, Focus, WithKeys
VARIABLES devs, missing, extra
vars == <<devs, missing, extra>>
Init == devs = <<>> /\ missing = "" /\ extra = <<>>
Edit == /\ Len(devs) < MaxDev
        /\ \E k \in (IF Len(devs) = 0 THEN Keys ELSE Focus) :
             /\ k # missing /\ \A i \in 1..Len(devs) : devs[i].key # k
             /\ \E j \in 1..Len(Variants(k)) : devs' = Append(devs, [key |-> k, val |-> Variants(k)[j]])
        /\ UNCHANGED <<missing, extra>>
Remove == /\ WithKeys /\ missing = "" /\ Len(devs) <= 1 /\ extra = <<>> /\ \E k \in Keys : missing' = k /\ (\A i \in 1..Len(devs) : devs[i].key # k)
          /\ UNCHANGED <<devs, extra>>
Add == /\ WithKeys /\ extra = <<>> /\ Len(devs) <= 1 /\ missing = "" /\ \E j \in 1..Len(ExtraKeys) : extra' = <<ExtraKeys[j]>>
       /\ UNCHANGED <<devs, missing>>
Next == Edit \/ Remove \/ Add
Case == [devs |-> devs, missing |-> missing, extra |-> extra]
(* the decision is total and never ValueError *)
Total == Defects(Case) \subseteq {"KeyError", "TypeError", "RuntimeError"}
BaseAccepted == (devs = <<>> /\ missing = "" /\ extra = <<>>) => Defects(Case) = {}
MissingAlwaysRejected == missing # "" => "KeyError" \in Defects(Case)
WrongTypeRejected == (\E i \in 1..Len(devs) : ~TypeOk(devs[i].key, devs[i].val)) => Defects(Case) \cap {"TypeError", "KeyError"} # {}
Emit == PrintT(ToJson(Case))
============================================================================
