------------------------------ MODULE Gen_C09 ------------------------------
EXTENDS C09, Json
CONSTANTS Shapes, Seeds, NMs
VARIABLES c, q
(* the digit 9 stands for 21 *)
Dig(s, p) == LET d == (s \div p) % 10 IN IF d = 9 THEN 21 ELSE d
Cases == {[nx |-> Dig(s, 10000) * (s % 10), ny |-> Dig(s, 1000) * (s % 10), nl |-> Dig(s, 100),
           nf |-> Dig(s, 10), os |-> s % 10, nm |-> m, avoid |-> a, noise |-> n, seed |-> sd, tiny |-> (sd + m) % 2 = 0, wide |-> m <= 10 /\ (sd + m + s) % 3 = 0] :
           s \in Shapes, a \in BOOLEAN, n \in BOOLEAN, sd \in Seeds, m \in NMs}
Init == c \in Cases /\ q = <<0, 0, 0>>
Next == /\ UNCHANGED c
        /\ q' = IF q[3] + 1 < c.nl THEN <<q[1], q[2], q[3] + 1>>
                ELSE IF q[2] + 1 < c.ny THEN <<q[1], q[2] + 1, 0>>
                ELSE IF q[1] + 1 < c.nx THEN <<q[1] + 1, 0, 0>> ELSE q
Stochastic == Near(SumSeq([m \in 1..c.nm |-> Prob(c, q[1], q[2], q[3], m - 1)]), 1000000, c.nm)
DevAveragesOut == \A m \in 0..(c.nm - 1) : SumSeq([f \in 1..c.nf |-> Dev(c, f - 1, m)]) = 0
ArgMaxKept == \A m, n \in 0..(c.nm - 1) : K(c, q[1] \div c.os, q[2] \div c.os, q[3], m) > K(c, q[1] \div c.os, q[2] \div c.os, q[3], n)
                 => Prob(c, q[1], q[2], q[3], m) > Prob(c, q[1], q[2], q[3], n)
(* a mixture never leaves the interval spanned by its materials *)
Convex == \A f \in 0..(c.nf - 1) : LET e == EpsIm(c, q[1], q[2], q[3], f) ms == [m \in 1..c.nm |-> Im(c, f, m - 1)]
             IN e >= MinSeq(ms) - 1 /\ e <= MaxSeq(ms) + 1
Emit == IF q = <<0, 0, 0>> THEN PrintT(ToJson(c)) ELSE TRUE
============================================================================
