------------------------------ MODULE Gen_C03 ------------------------------
(* Enumerates inputs of the two losses, computes the specified result step by step and
   checks the design-level properties of the definition itself. *)
EXTENDS C03, Json
CONSTANTS Vals, TVals, MaxN, PVals, Rand, Seed
VARIABLES c, i, acc

Points(S) == UNION {[1..n -> S] : n \in 1..MaxN}
SpecCases == UNION {{[kind |-> "spec", R |-> r, T |-> t, RT |-> rt, TT |-> tt, e |-> [j \in 1..n |-> 0], L |-> L, abs |-> a] :
                r \in [1..n -> Vals], t \in [1..n -> Vals], rt \in [1..n -> TVals], tt \in [1..n -> TVals],
                L \in 0..3, a \in BOOLEAN} : n \in 1..MaxN}
RegCases == UNION {{[kind |-> "reg", P |-> P, L |-> L, max |-> m] :
                P \in [1..n -> [1..k -> PVals]], L \in 0..3, m \in BOOLEAN} : n \in 1..2, k \in 1..2}
(* pseudo-random longer cases in finer units: points exactly at R + T = 1 (give or take the infinitesimal), predictions
   close to their targets, unphysical points anywhere *)
Lcg(x) == (x * 1103 + 12345) % 65536
RECURSIVE LcgN(_, _)
LcgN(x, n) == IF n = 0 THEN x ELSE LcgN(Lcg(x), n - 1)
Rnd(x, m) == (x \div 128) % m
RandSpec(s) ==
  LET x == LcgN((Seed * 7919 + s * 131) % 65536, 5)
      n == 1 + Rnd(LcgN(x, 1), 12)
      L == 1 + Rnd(LcgN(x, 2), 3)
      a == Rnd(LcgN(x, 3), 2) = 0
      k(j, q) == LcgN((x + 4957 * (7 * j + q)) % 65536, 3)
      at(j) == Rnd(k(j, 0), 3)                       \* 0: exactly one, 1: below, 2: anywhere
      R == [j \in 1..n |-> Rnd(k(j, 1), D + 1)]
      T == [j \in 1..n |-> IF at(j) = 0 THEN D - R[j] ELSE IF at(j) = 1 \/ L > 1 THEN Rnd(k(j, 2), D - R[j] + 1) ELSE Rnd(k(j, 2), D + 1)]
      close(j) == Rnd(k(j, 3), 3) = 0
      RT == [j \in 1..n |-> IF close(j) THEN Max2(0, R[j] - Rnd(k(j, 4), 3)) ELSE Rnd(k(j, 4), D + 1)]
      TT == [j \in 1..n |-> IF close(j) THEN Max2(0, Min2(T[j], D - RT[j]) - Rnd(k(j, 5), 2)) ELSE Rnd(k(j, 5), D - RT[j] + 1)]
  IN [kind |-> "spec", R |-> R, T |-> T, RT |-> RT, TT |-> TT, e |-> [j \in 1..n |-> Rnd(k(j, 6), 3) - 1], L |-> L, abs |-> a]
RandReg(s) ==
  LET x == LcgN((Seed * 7919 + s * 131) % 65536, 5)
      n == 1 + Rnd(LcgN(x, 1), 6)  m == 1 + Rnd(LcgN(x, 2), 8)
  IN [kind |-> "reg", P |-> [h \in 1..n |-> [j \in 1..m |-> LET v == LcgN((x + 4957 * (9 * h + j)) % 65536, 3) IN
                                IF v % 5 = 0 THEN D \div 2 ELSE IF v % 5 = 1 THEN Rnd(v, 3) ELSE Rnd(v, D + 1)]],
      L |-> 1 + Rnd(LcgN(x, 3), 3), max |-> Rnd(LcgN(x, 4), 3) = 0]
RandCases == {IF s % 4 = 0 THEN RandReg(s) ELSE RandSpec(s) : s \in 1..Rand}
Tabulated(x) == x.kind = "spec" /\ x.L = 0 => \A j \in 1..Len(x.R) : ~Unphysical(x.R[j], x.T[j])
Init == /\ c \in (IF Rand > 0 THEN RandCases ELSE {x \in SpecCases : Tabulated(x)} \cup RegCases)
        /\ i = 0 /\ acc = 0
Step == /\ c.kind = "spec" /\ i < N(c)
        /\ i' = i + 1
        /\ acc' = acc + RTerm(c, i + 1) + TTerm(c, i + 1) + ATerm(c, i + 1)
        /\ UNCHANGED c
Next == Step

Full == c.kind = "spec" /\ i = N(c)
(* zero loss exactly when the physical spectrum equals the target *)
ZeroIff == Full => ((acc = 0) <=> \A j \in 1..N(c) : RTerm(c, j) = 0 /\ TTerm(c, j) = 0 /\ ATerm(c, j) = 0)
NonNeg == acc >= 0
(* a rescaled point is physical: its parts add up to one and keep their ratio *)
RescaledPhysical == c.kind = "spec" =>
   \A j \in 1..N(c) : Unphysical(c.R[j], c.T[j]) =>
      LET p == Phys(c.R[j], c.R[j], c.T[j]) q == Phys(c.T[j], c.R[j], c.T[j])
      IN p[1] + q[1] = p[2] /\ p[2] = q[2]
Accumulated == Full => Loss(c) = acc \div ((IF c.abs THEN 3 ELSE 2) * N(c))
RegBounded == c.kind = "reg" => (Reg(c.P, c.L) >= 0 /\ RegMax(c.P) <= Pow(10, K))
Emit == IF i = 0 THEN PrintT(ToJson(c)) ELSE TRUE
============================================================================
