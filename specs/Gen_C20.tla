------------------------------ MODULE Gen_C20 ------------------------------
EXTENDS C20, Json
CONSTANTS Hiddens, Widths, Encs, Outs, Batches
VARIABLES c, k, w
Nets == {[type |-> t, hidden |-> h, width |-> n, enc |-> e, out |-> o, batch |-> b] :
          t \in {"nerf", "siren"}, h \in Hiddens, n \in Widths, e \in Encs, o \in Outs, b \in Batches}
Voxels == {[type |-> "voxel", cls |-> x, nx |-> s \div 1000, ny |-> (s \div 100) % 10, nl |-> (s \div 10) % 10, nf |-> s % 10,
            rmin |-> r[1], rmax |-> r[2], imin |-> r[3], imax |-> r[4], hidden |-> 0, width |-> 1, enc |-> 4, out |-> 2, batch |-> 1] :
            x \in BOOLEAN, s \in {1111, 2324, 1282, 4441}, r \in {<<-5000, 10000, 0, 3000>>, <<2000, 4000, -3000, -1000>>, <<-100000, 100000, 0, 0>>, <<3000, 3000, 100, 200>>}}
Others == {[type |-> t, hidden |-> 1, width |-> 3, enc |-> 4, out |-> 2, batch |-> 1] : t \in {"mlp", "", "Siren", "NERF"}}
Init == c \in Nets \cup Voxels \cup Others /\ k = 0 /\ w = c.enc
(* evaluate layer k+1 on data of width w *)
Eval == /\ c.type \in {"nerf", "siren"} /\ k < NLayers(c)
        /\ k' = k + 1
        /\ w' = DataW(c, k + 1) - InW(c, k + 1) + OutW(c, k + 1)
        /\ UNCHANGED c
Next == Eval
WidthsFit == \A i \in 1..NLayers(c) : DataW(c, i) = InW(c, i)
OutputWidth == (c.type \in {"nerf", "siren"} /\ k = NLayers(c)) => w = c.out
Emit == IF k = 0 THEN PrintT(ToJson(c)) ELSE TRUE
============================================================================
