-------------------------------- MODULE C12 --------------------------------
(* A spectrum call as a map of an unknown single-point response F over <<frequency, slice>> pairs:
   call(q) = [i |-> F(q[i])].  F is learnt from calls with one frequency only (table), then every
   longer call has to agree with it.  Slice 0 is free space, for which F is known: R = 0, T = 1.
   Reflectances and transmittances in units of 10^-8. *)
EXTENDS Num, TLC, FiniteSets
One == 100000000
Cl(ok, name) == IF ok THEN {} ELSE {name}
Pairs(c) == c.pairs                    \* sequence of [f, s]
(* what a call has to do, as a function of the fault planted in its arguments *)
Outcome(c) == CASE c.fault = "none" -> {"ok"}
                [] c.fault = "nan" -> {"ValueError"}
                [] c.fault = "zero" -> {}        \* an exact zero may or may not be singular, but stays an exact zero
                [] OTHER -> {"AssertionError"}
Same(a, b, t) == Near(a[1], b[1], t) /\ Near(a[2], b[2], t)
Tol(c) == IF c.solver = "FDTD" THEN 2000 ELSE 20
(* o: case, table[f+1][s+1] = <<R, T>>, out, n = <<number of R entries, of T entries>>, val = <<<<R, T>>, ..>>, untouched *)
Bad(o) ==
  LET c == o.case IN
  Cl(Outcome(c) = {} \/ o.out \in Outcome(c), "outcome") \cup
  Cl(o.untouched, "permittivity grid modified") \cup
  Cl(o.out /= "ok" \/ o.n = <<Len(c.pairs), Len(c.pairs)>>, "number of entries") \cup
  (IF o.out /= "ok" \/ c.fault /= "none" \/ o.n /= <<Len(c.pairs), Len(c.pairs)>> THEN {} ELSE
   Cl(\A i \in 1..Len(c.pairs) : Same(o.val[i], o.table[c.pairs[i].f + 1][c.pairs[i].s + 1], Tol(c)), "depends on its own point only") \cup
   Cl(\A i \in 1..Len(c.pairs) : c.pairs[i].s = 0 => Same(o.val[i], <<0, One>>, IF c.solver = "FDTD" THEN One \div 20 ELSE 100000), "free space is <<R, T>> = <<0, 1>>"))
============================================================================
