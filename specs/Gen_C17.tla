------------------------------ MODULE Gen_C17 ------------------------------
(* Pseudo-random stacks; the discrete oracle is itself checked against the continuum thin-film theory
   (refining the grid makes it converge), against energy conservation and reciprocity. *)
EXTENDS C17, Json
CONSTANTS Seeds
VARIABLES sd, m
L1(x) == (x * 1103 + 12345) % 1048576
RECURSIVE LCG(_, _)
LCG(x, k) == IF k = 0 THEN x ELSE LCG(L1(x), k - 1)
R(s, k, n) == LET a == LCG(((((s % 100000) * 7919) % 1048576) + (k * 3571) + (s \div 100000)) % 1048576, 2)
                  b == ((a \div 512) * ((a % 1021) + 1)) % 1048576
              IN (LCG(b, 2) \div 64) % n
Pick(s, k, q) == q[R(s, k, Len(q)) + 1]
(* index in tenths and extinction *)
Palette == << <<10, 0>>, <<12, 0>>, <<14, 1>>, <<15, 0>>, <<17, 0>>, <<20, 0>>, <<20, 2>>, <<15, 5>>, <<23, 0>>, <<22, 1>>, <<32, 30>>, <<12, 3>>, <<30, 0>>, <<29, 4>> >>
Layer(s, k) == LET p == Pick(s, k, Palette) IN [a |-> p[1], b |-> p[2], cells |-> 2 + R(s, k + 1, 9)]
Nl(s) == 1 + R(s, 1, 3)
Depth(ls) == SumSeq([i \in 1..Len(ls) |-> ls[i].cells * ls[i].a])
Case(s) ==
  LET S == 16
      ls == IF R(s, 2, 12) = 0 THEN [i \in 1..Nl(s) |-> [a |-> 10, b |-> 0, cells |-> 2 + R(s, 5 + i, 9)]]
            ELSE [i \in 1..Nl(s) |-> Layer(s, 10 * i)]
      lmax == 1000 + 37 * R(s, 3, 27)
      lmin == 820 + 29 * R(s, 4, 5)
      free == 8 + R(s, 50, 4)
  IN [S |-> S, pml |-> 12, free |-> free, det |-> 1 + R(s, 51, 3), layers |-> ls, lmin |-> lmin, lmax |-> lmax,
      nf |-> 1 + R(s, 52, 2), source |-> Pick(s, 53, <<"line", "point">>), srcx |-> 12, srcy |-> 3 * R(s, 55, 13) + R(s, 56, 2),
      shared |-> \A i \in 1..Len(ls) : ls[i].cells = ls[1].cells,
      (* twice the number of steps the library itself recommends *)
      niter |-> (((free * 10) + 3 * Depth(ls) + (50 * lmax * S) \div 1000) * 284) \div 1000]
(* the source sits a few grid points in front of the reflection detector, and not in the wrapped row of the
   periodic grid, which the boundary overwrites in every step *)
Valid(c) == ~Ambiguous(c, c.lmin) /\ ~Ambiguous(c, c.lmax)
Fine(c, k) == [c EXCEPT !.S = @ * k, !.layers = [i \in 1..Len(@) |-> [@[i] EXCEPT !.cells = @ * k]]]
Init == sd \in {s \in Seeds : Valid(Case(s))} /\ m = 0
Next == m = 0 /\ m' = 1 /\ UNCHANGED sd
(* the discrete scheme with the layers cut finer approaches thin-film optics *)
Converges == m = 1 => LET c == Case(sd) y == Yee(Fine(c, 16), c.lmax) f == Film(c, c.lmax) IN
               Near(R4(y), R4(f), 150) /\ Near(T4(y), T4(f), 150)
Energy == m = 1 => LET c == Case(sd) y == Yee(c, c.lmax) s == R4(y) + T4(y) IN
            IF Lossless(c) THEN Near(s, 10000, 3) ELSE s <= 10002
Recip == m = 1 => LET c == Case(sd) y == Yee(c, c.lmax)
                      rv == Yee([c EXCEPT !.layers = [i \in 1..Len(@) |-> @[Len(@) + 1 - i]]], c.lmax)
                  IN Near(T4(y), T4(rv), 3)
Emit == IF m = 0 THEN PrintT(ToJson(Case(sd))) ELSE TRUE
============================================================================
