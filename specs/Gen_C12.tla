------------------------------ MODULE Gen_C12 ------------------------------
(* All argument lists up to MaxN points and all single faults.  A call is performed point by point;
   the invariant says that swapping any two points of the call swaps the result (F uninterpreted). *)
EXTENDS C12, Json
CONSTANTS Freqs, Slices, MaxN, MaxFault, Solver, Shapes, Faults, Ranges, Longs
VARIABLES c, i, res
P == [f : Freqs, s : Slices]
(* FDTD frequencies are fixed by the wavelength range: the i-th point has the i-th frequency *)
Seqs(n) == IF Solver = "FDTD" THEN {q \in [1..n -> P] : \A j \in 1..n : q[j].f = j - 1} ELSE [1..n -> P]
(* long calls: arithmetic sequences of points *)
Long == {[j \in 1..n |-> [f |-> IF Solver = "FDTD" THEN j - 1 ELSE (j * a + b) % Cardinality(Freqs), s |-> ((j * j * a) \div 2 + b) % Cardinality(Slices)]]
           : n \in Longs, a \in 1..5, b \in 0..4}
Good == {[solver |-> Solver, shape |-> sh, pairs |-> q, fault |-> "none", at |-> 0, range |-> w] : sh \in Shapes, w \in Ranges, q \in Long \cup UNION {Seqs(n) : n \in 1..MaxN}}
Broken == {[solver |-> Solver, shape |-> sh, pairs |-> q, fault |-> ft, at |-> k, range |-> 0] :
             sh \in Shapes, q \in {x \in Long : Len(x) < 6} \cup UNION {Seqs(n) : n \in 1..MaxFault}, ft \in Faults, k \in 0..7}
Init == c \in Good \cup Broken /\ i = 0 /\ res = <<>>
Next == /\ c.fault = "none" /\ i < Len(c.pairs)
        /\ res' = Append(res, <<"F", c.pairs[i + 1].f, c.pairs[i + 1].s>>)
        /\ i' = i + 1 /\ UNCHANGED c
LinesUp == Len(res) = i /\ \A j \in 1..i : res[j] = <<"F", c.pairs[j].f, c.pairs[j].s>>
Emit == IF i = 0 THEN PrintT(ToJson(c)) ELSE TRUE
============================================================================
