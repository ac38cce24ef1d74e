------------------------------ MODULE Gen_C18 ------------------------------
(* Pseudo-random cases of the four kinds; the derivative oracle is itself checked: for lossless stacks the
   derivatives of R and T with respect to Re eps cancel, and absorption lowers R + T. *)
EXTENDS C18, Json
CONSTANTS Seeds, Kinds
VARIABLES sd, kd, m
L1(x) == (x * 1103 + 12345) % 1048576
RECURSIVE LCG(_, _)
LCG(x, k) == IF k = 0 THEN x ELSE LCG(L1(x), k - 1)
R(s, k, n) == LET a == LCG(((((s % 100000) * 7919) % 1048576) + (k * 3571) + (s \div 100000)) % 1048576, 2)
                  b == ((a \div 512) * ((a % 1021) + 1)) % 1048576
              IN (LCG(b, 2) \div 64) % n
Pick(s, k, q) == q[R(s, k, Len(q)) + 1]
Palette == << <<10, 0>>, <<12, 0>>, <<14, 1>>, <<15, 0>>, <<17, 0>>, <<20, 0>>, <<20, 2>>, <<15, 5>>, <<23, 0>>, <<22, 1>>, <<12, 3>>, <<8, 2>>, <<3, 20>>, <<2, 12>>, <<5, 8>> >>
Layer(s, k) == LET p == Pick(s, k, Palette) IN [a |-> p[1], b |-> p[2], th |-> IF p[2] > p[1] THEN 3 + R(s, k + 1, 12) ELSE 8 + R(s, k + 1, 50)]
Film(s) ==
  LET g == Pick(s, 60, << <<1, 1>>, <<1, 1>>, <<4, 4>>, <<3, 5>>, <<3, 3>>, <<6, 4>> >>) IN
  [kind |-> "film", layers |-> [i \in 1..(1 + R(s, 1, 4)) |-> Layer(s, 10 * i)],
   fs |-> [i \in 1..(1 + R(s, 2, 3)) |-> 200 + R(s, 70 + i, 700)],
   nx |-> g[1], ny |-> g[2], ng |-> Pick(s, 61, <<1, 6, 11>>)]
(* patterns: sym = symmetry of the grid, re / im ranges in hundredths, flat = layers that are uniform *)
Grid(s) ==
  LET g == Pick(s, 60, << <<4, 4>>, <<4, 4>>, <<5, 5>>, <<3, 5>>, <<6, 4>>, <<6, 6>> >>) IN
  [kind |-> "grid", nx |-> g[1], ny |-> g[2], nl |-> 1 + R(s, 1, 3), nf |-> 1 + R(s, 2, 2), ng |-> Pick(s, 61, <<1, 6, 11, 13>>),
   sym |-> Pick(s, 62, <<"none", "none", "x", "y", "xy", "diag", "four", "hole", "checker", "stripes">>),
   lossless |-> R(s, 63, 3) = 0, metal |-> R(s, 68, 3) = 0, flat |-> R(s, 64, 4), seed |-> R(s, 65, 10000), top |-> Pick(s, 66, <<100, 100, 225>>), bot |-> Pick(s, 67, <<100, 225, 400>>),
   fs |-> [i \in 1..2 |-> 200 + R(s, 70 + i, 700)], ths |-> [i \in 1..3 |-> 8 + R(s, 80 + i, 50)]]
Fdtd(s) ==
  LET nl == 1 + R(s, 1, 2)
      ls == [i \in 1..nl |-> [re |-> IF s % 3 = 1 /\ i = 1 THEN (IF s % 6 = 1 THEN 100 ELSE Pick(s, 10 * i, <<103, 105, 110, 100>>)) ELSE Pick(s, 10 * i, <<150, 225, 300, 400>>), im |-> IF s % 6 = 1 /\ i = 1 THEN 30 ELSE Pick(s, 10 * i + 1, <<0, 0, 20, 60>>), cells |-> 3 + R(s, 10 * i + 2, 5)]]
      wls == [i \in 1..(IF R(s, 71, 4) = 0 THEN 2 ELSE 1) |-> IF i = 1 THEN 1000 + 37 * R(s, 72, 10) ELSE 830 + 17 * R(s, 73, 8)]
  IN [kind |-> "fdtd", S |-> 16, layers |-> ls, wls |-> wls, niter |-> 240 + 8 * SumSeq([i \in 1..nl |-> ls[i].cells]),
      source |-> Pick(s, 62, <<"line", "line", "point">>)]
Train(s) ==
  [kind |-> "train", model |-> Pick(s, 1, <<"siren", "nerf", "voxel">>), type |-> IF R(s, 1, 3) = 2 THEN "regression" ELSE Pick(s, 2, <<"regression", "classification">>),
   nx |-> Pick(s, 3, <<1, 1, 1, 4>>), nl |-> 1 + R(s, 4, 2), nf |-> 1 + R(s, 5, 3), L |-> 1 + R(s, 6, 2), absorb |-> R(s, 7, 2) = 1,
   reg |-> R(s, 8, 3) # 0, iterations |-> IF R(s, 11, 4) = 0 THEN 1 ELSE 1 + R(s, 9, 3), seed |-> R(s, 10, 1000), noise |-> R(s, 11, 4) = 0,
   gain |-> R(s, 12, 4) = 0]      \* light is amplified: R + T > 1 is normalised in the loss
Case(s, k) == CASE k = "film" -> Film(s) [] k = "grid" -> Grid(s) [] k = "fdtd" -> Fdtd(s) [] k = "train" -> Train(s)
Valid(c) == IF c.kind # "fdtd" THEN TRUE
            ELSE \A i \in 1..Len(c.wls) : LET r == ((c.wls[i] * c.S * 2857) \div 2000 + 500) % 1000 IN r >= 30 /\ r <= 970
Init == kd \in Kinds /\ sd \in {s \in Seeds : Valid(Case(s, kd))} /\ m = 0
Next == m = 0 /\ m' = 1 /\ UNCHANGED <<sd, kd>>
Balance == (m = 1 /\ kd = "film") =>
  LET c == Film(sd) f == c.fs[1] IN
  (\A i \in 1..Len(c.layers) : c.layers[i].b = 0) =>
    LET re == FilmD(c, f, 1, "re") im == FilmD(c, f, 1, "im") IN Near(re[1], -re[2], 60) /\ im[1] + im[2] <= 60
BalanceYee == (m = 1 /\ kd = "fdtd") =>
  LET c == Fdtd(sd) f == c.wls[1] IN
  (\A i \in 1..Len(c.layers) : c.layers[i].im = 0) =>
    LET re == YeeD(c, f, 1, "re") im == YeeD(c, f, 1, "im") IN Near(re[1], -re[2], 60) /\ im[1] + im[2] <= 60
Emit == IF m = 0 THEN PrintT(ToJson(Case(sd, kd))) ELSE TRUE
============================================================================
