------------------------------ MODULE Gen_C08 ------------------------------
EXTENDS C08, Json
CONSTANTS Shapes, Seeds
(* Shapes: 10000*nx + 1000*ny + 100*nl + 10*nf + os (nx, ny counted in blocks) *)
VARIABLES c, q
(* ranges in hundredths; the fifth and the last but one reach values within 1/100 of zero on both sides *)
Ranges == {<<-200, 300, 0, 200>>, <<0, 400, -100, 100>>, <<-10000, 10000, 0, 2>>, <<75, 75, 125, 150>>, <<-25, 25, -200, -50>>,
           <<-500, -100, 0, 0>>, <<-3, 2, 0, 2000>>, <<-100, 100, 300, 303>>}
Outs == {<<0, 17>>, <<-6, 29>>, <<7, 3>>}
(* the digit 9 stands for 21 *)
Dig(s, p) == LET d == (s \div p) % 10 IN IF d = 9 THEN 21 ELSE d
Cases == {[model |-> m, nx |-> Dig(s, 10000) * (s % 10), ny |-> Dig(s, 1000) * (s % 10), nl |-> Dig(s, 100),
           nf |-> Dig(s, 10), os |-> s % 10, rmin |-> r[1], rmax |-> r[2], imin |-> r[3], imax |-> r[4],
           olo |-> o[1], span |-> o[2], avoid |-> a, noise |-> n > 0, ns |-> n - 1, log |-> sd % 2 = 1, seed |-> sd] :
           m \in {"siren", "nerf", "voxel"}, s \in Shapes, r \in Ranges, o \in Outs, a \in BOOLEAN, n \in {0, 1, 2, 301}, sd \in Seeds}
Init == c \in Cases /\ q = <<0, 0, 0, 0>>
(* walk over the cells in order *)
Next == /\ UNCHANGED c
        /\ q' = IF q[4] + 1 < c.nf THEN <<q[1], q[2], q[3], q[4] + 1>>
                ELSE IF q[3] + 1 < c.nl THEN <<q[1], q[2], q[3] + 1, 0>>
                ELSE IF q[2] + 1 < c.ny THEN <<q[1], q[2] + 1, 0, 0>>
                ELSE IF q[1] + 1 < c.nx THEN <<q[1] + 1, 0, 0, 0>> ELSE q
V(k) == Value(c, q[1], q[2], q[3], q[4], k)
Ranged == InRange(c, V(0), 0) /\ InRange(c, V(1), 1)
AwayFromZero == c.avoid => Abs(V(0)) >= CUT
BlockConstant == (c.model # "voxel") =>
    V(0) = Value(c, (q[1] \div c.os) * c.os, (q[2] \div c.os) * c.os, q[3], q[4], 0)
Emit == IF q = <<0, 0, 0, 0>> THEN PrintT(ToJson(c)) ELSE TRUE
============================================================================
