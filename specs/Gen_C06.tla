------------------------------ MODULE Gen_C06 ------------------------------
(* Queries: every stride-th table row of every material, with the wavelength exactly on the row or
   a quarter of the gap before/after it, plus wavelengths outside every table. *)
EXTENDS C06
CONSTANTS Stride
VARIABLES q
Gap(t, r) == IF r < Len(t) THEN t[r + 1] - t[r] ELSE t[r] - t[r - 1]
Wl(m, r, off) == Tables[m].w[r] + (off * Gap(Tables[m].w, r)) \div 4
Queries == UNION {{[m |-> m, r |-> r, off |-> off, w |-> Wl(m, r, off)] :
              r \in {x \in 2..(Len(Tables[m].w) - 1) : x % Stride = m % Stride} \cup {2, Len(Tables[m].w) - 1}, off \in {-1, 0, 1}} : m \in 1..NT}
Outside == {[m |-> m, r |-> (IF w < 1000000 THEN 1 ELSE Len(Tables[m].w)), off |-> 0, w |-> w] : m \in 1..NT, w \in {100000, 800000000}}
Init == q \in Queries \cup Outside
Next == UNCHANGED q
(* the nearest row of a wavelength within a quarter gap of row r is r, or a neighbour that is nearer still *)
NearestOk == LET t == Tables[q.m].w n == Nearest(q.m, q.w)
             IN Abs(t[n] - q.w) <= Abs(t[q.r] - q.w) /\ (q.off = 0 /\ q.w = t[q.r] => n = q.r)
Minimal == LET t == Tables[q.m].w n == Nearest(q.m, q.w) IN \A i \in 1..Len(t) : Abs(t[n] - q.w) <= Abs(t[i] - q.w)
Emit == PrintT(ToJson([w |-> q.w, m |-> q.m]))
============================================================================
