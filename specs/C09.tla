-------------------------------- MODULE C09 --------------------------------
(* Classification model -> material probabilities and permittivity grid.
   The scripted network returns likelihoods (K + Dev) * ln(2)/16 with integer K and frequency deviations Dev that
   average out, so the softmax with inverse temperature 16 is exactly 2^K / SUM 2^K.
   Probabilities are fixed-point 10^-6, permittivities 10^-4. *)
EXTENDS Num, TLC, FiniteSets
CUT == 100
Cl(ok, name) == IF ok THEN {} ELSE {name}
Levels(c) == IF c.wide THEN <<0, 3, 7, 11>> ELSE <<0, 1, 2, 3>>
K(c, bi, bj, l, m) == Levels(c)[1 + ((3 * bi + 5 * bj + 7 * l + 2 * m * m + c.seed) % 4)]
Amp(c, m) == (m + c.seed) % 3
Dev(c, f, m) == CASE c.nf = 1 -> 0
                  [] c.nf = 2 -> (IF f = 0 THEN Amp(c, m) ELSE -Amp(c, m))
                  [] c.nf = 3 -> (IF f = 1 THEN -2 * Amp(c, m) ELSE Amp(c, m))
                  [] OTHER -> (IF f = 0 THEN 3 * Amp(c, m) ELSE IF f <= 3 THEN -Amp(c, m) ELSE 0)
(* odd seeds: permittivities around zero *)
Ru(c) == IF c.seed % 2 = 1 THEN 20 ELSE 5000
Re(c, f, m) == (((m * 17 + f * 5 + c.seed) % 23) - 11) * Ru(c)
Im(c, f, m) == ((m * 7 + f * 3 + c.seed) % 9) * 5000
W(c, i, j, l, m) == Pow(2, K(c, i \div c.os, j \div c.os, l, m))
Norm(c, i, j, l) == SumSeq([m \in 1..c.nm |-> W(c, i, j, l, m - 1)])
Prob(c, i, j, l, m) == Fix(W(c, i, j, l, m), Norm(c, i, j, l), 6)
EpsRe(c, i, j, l, f) == LET s == SumSeq([m \in 1..c.nm |-> W(c, i, j, l, m - 1) * Re(c, f, m - 1)]) IN Fix(s, Norm(c, i, j, l), 0)
EpsIm(c, i, j, l, f) == LET s == SumSeq([m \in 1..c.nm |-> W(c, i, j, l, m - 1) * Im(c, f, m - 1)]) IN Fix(s, Norm(c, i, j, l), 0)
Avoid(x) == IF Abs(x) < CUT THEN (IF x < 0 THEN -CUT ELSE CUT) ELSE x
ReOk(c, obs, x) == IF ~c.avoid THEN Near(obs, x, 2)
                   ELSE Near(obs, Avoid(x), 2) \/ (Abs(x) <= 1 /\ Near(Abs(obs), CUT, 1))
Pts(c) == {<<i, j, l>> : i \in 0..(c.nx - 1), j \in 0..(c.ny - 1), l \in 0..(c.nl - 1)}
P(o, q, m) == o.prob[q[1] + 1][q[2] + 1][q[3] + 1][m + 1]
E(o, q, f) == o.eps[q[1] + 1][q[2] + 1][q[3] + 1][f + 1]
SumP(o, q) == SumSeq(o.prob[q[1] + 1][q[2] + 1][q[3] + 1])
Bad(o) ==
  LET c == o.case IN
  Cl(o.outcome = "ok", "raised") \cup
  (IF o.outcome # "ok" THEN {} ELSE
   Cl(o.pshape = <<c.nx, c.ny, c.nl, c.nm>>, "probability_shape") \cup
   Cl(o.shape = <<c.nx, c.ny, c.nl, c.nf>>, "grid_shape") \cup
   (IF o.pshape # <<c.nx, c.ny, c.nl, c.nm>> THEN {} ELSE
     Cl(\A q \in Pts(c) : \A m \in 0..(c.nm - 1) : P(o, q, m) >= 0, "negative_probability") \cup
     Cl(\A q \in Pts(c) : Near(SumP(o, q), 1000000, c.nm), "probabilities_do_not_sum_to_one") \cup
     (IF c.noise THEN   \* noise of 10^-4 moves a probability by less than a fiftieth
      Cl(c.tiny => \A q \in Pts(c) : \A m \in 0..(c.nm - 1) : LET p == Prob(c, q[1], q[2], q[3], m) IN Near(P(o, q, m), p, 3 + p \div 50), "noise_far_from_its_scale")
      ELSE
      Cl(\A q \in Pts(c) : \A m \in 0..(c.nm - 1) : Near(P(o, q, m), Prob(c, q[1], q[2], q[3], m), 3), "probability"))) \cup
   (IF o.shape # <<c.nx, c.ny, c.nl, c.nf>> THEN {} ELSE
     Cl(c.avoid => \A q \in Pts(c) : \A f \in 0..(c.nf - 1) : Abs(E(o, q, f)[1]) >= CUT, "zero_avoidance") \cup
     (IF c.noise THEN
        (IF o.pshape # <<c.nx, c.ny, c.nl, c.nm>> THEN {} ELSE
         (* with noise the mixture still follows the returned probabilities *)
         Cl(\A q \in Pts(c) : \A f \in 0..(c.nf - 1) :
              (~c.avoid => Near(E(o, q, f)[1], ((SumSeq([m \in 1..c.nm |-> P(o, q, m - 1) * (Re(c, f, m - 1) \div Ru(c))]) \div 10) * (Ru(c) \div 20)) \div 5000, 5))
              /\ Near(E(o, q, f)[2], SumSeq([m \in 1..c.nm |-> P(o, q, m - 1) * (Im(c, f, m - 1) \div 5000)]) \div 200, 5), "mixture"))
      ELSE
       Cl(\A q \in Pts(c) : \A f \in 0..(c.nf - 1) : ReOk(c, E(o, q, f)[1], EpsRe(c, q[1], q[2], q[3], f)), "real_part") \cup
       Cl(\A q \in Pts(c) : \A f \in 0..(c.nf - 1) : Near(E(o, q, f)[2], EpsIm(c, q[1], q[2], q[3], f), 2), "imaginary_part"))))
============================================================================
