------------------------------ MODULE Gen_C13 ------------------------------
EXTENDS C13, Json
CONSTANTS Depth, Seeds
VARIABLES s, h
O(op, n) == [op |-> op, n |-> n]
Sets == {"range", "dist", "nf", "thick", "lat"}
Silent == {"solver", "drop", "supply", "rng", "other", "seed"} \cup Sets
Ops == {O(x, 0) : x \in ({"spec", "train", "freq", "validate"} \cup Silent) \ {"seed", "range"}} \cup {O("seed", n) : n \in Seeds} \cup {O("range", n) : n \in 0..2}
Last == IF h = <<>> THEN "none" ELSE h[Len(h)].op
Init == s = Start /\ h = <<>>
Next == /\ Len(h) < Depth
        /\ \E o \in Ops :
             /\ o.op \in Silent \cup {"validate", "freq"} => Last /= o.op
             /\ o.op = "seed" => o.n /= s.seed
             /\ o.op = "range" => o.n /= s.set.range
             /\ Len(h) = Depth - 1 => o.op \in {"spec", "train", "freq"}
             /\ Enabled(s, o)
             /\ h' = Append(h, [op |-> o.op, n |-> o.n, key |-> Key(s, o)])
             /\ s' = Apply(s, o)
(* a result key never mentions anything but the settings it was computed with *)
KeyOfLast == Len(h) > 0 /\ Last = "train" => h[Len(h)].key.chain = s.chain /\ s.chain[Len(s.chain)] = Tr(s)
ModelKept == s.base \in {"none", "own"} /\ Len(s.chain) <= Len(h)
Fresh == Len(h) > 0 /\ Last \in {"freq", "train"} => s.fr = Fr(s.set)
Results == Cardinality({i \in 1..Len(h) : h[i].op \in {"spec", "train", "freq"}})
Emit == IF Len(h) = Depth /\ Results >= 2 THEN PrintT(ToJson([ops |-> h])) ELSE TRUE
============================================================================
