------------------------------ MODULE Gen_C19 ------------------------------
(* All histories of at most Depth operations; the snapshots are checked to survive everything that
   happens after them. *)
EXTENDS C19, Json
CONSTANTS Depth
VARIABLES s, h, ghost
O(op, r, sub) == [op |-> op, r |-> r, sub |-> sub]
Ops == {O("edit", "A", ""), O("train", "A", ""), O("train", "B", ""), O("load", "A", "")}
       \cup {O("save", r, b) : r \in Runs, b \in {"", "s/t"}} \cup {O("plots", "A", "p")}
Init == s = Empty /\ h = <<>> /\ ghost = <<>>
Next == /\ Len(h) < Depth
        /\ \E o \in Ops :
             /\ (Len(h) > 0 /\ o.op \in {"load", "plots"}) => h[Len(h)].op /= o.op
             /\ s' = Apply(s, o) /\ h' = Append(h, o)
             /\ ghost' = IF o.op = "save" THEN Append(ghost, s.run[o.r]) ELSE ghost
Snapshots == [k \in 1..Len(s.file) |-> s.file[k].content] = ghost
OneFilePerSave == Len(s.file) = Cardinality({i \in 1..Len(h) : h[i].op = "save"})
NPlots == Cardinality({i \in 1..Len(h) : h[i].op = "plots"})
NSaves == Cardinality({i \in 1..Len(h) : h[i].op = "save"})
Emit == IF Len(h) = Depth /\ NSaves >= 1 /\ NPlots <= 1 THEN PrintT(ToJson([ops |-> h])) ELSE TRUE
============================================================================
