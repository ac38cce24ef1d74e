-------------------------------- MODULE C03 --------------------------------
(* Spectrum loss and likelihood regularisation (nidn/training/losses).
   All amounts are integers in units of 1/D; results are fixed-point 10^-7.
   A case is [R, T, RT, TT (sequences over 0..), e, L in {1,2,3}, abs BOOLEAN]; e[i] in {-1, 0, 1} stands for an
   infinitesimal (2^-40) added to R[i], which decides whether R + T = 1 is exceeded but changes no loss. *)
EXTENDS Num, TLC, FiniteSets
CONSTANT D
K == 7

(* a frequency point is unphysical iff R+T > 1 *)
Unphysical(r, t) == r + t > D
Exceeds(c, i) == Unphysical(c.R[i], c.T[i]) \/ (c.R[i] + c.T[i] = D /\ c.e[i] > 0)

(* the physical value as a rational <<num, den>> *)
Phys(x, r, t) == IF Unphysical(r, t) THEN <<x, r + t>> ELSE <<x, D>>

(* L = 0 stands for the exponent 1/2: square roots of k/8 in units of 10^-7 *)
Sqrt8 == <<3535534, 5000000, 6123724, 7071068, 7905694, 8660254, 9354143, 10000000, 10606602, 11180340, 11726039, 12247449, 12747549, 13228757, 13693064, 14142136, 14577380, 15000000, 15411035, 15811388, 16201852, 16583124, 16955825, 17320508, 17677670, 18027756, 18371173, 18708287, 19039433, 19364917, 19685020, 20000000>>
ASSUME \A k \in 1..32 : LET a == Sqrt8[k] \div 1000 IN 2 * a * a <= k * 25000000 /\ 2 * (a + 1) * (a + 1) > k * 25000000
Half(num, den) == IF num = 0 THEN 0 ELSE Sqrt8[(8 * num) \div den]
(* | p - q/D |^L in units of 10^-K, for a rational p *)
Term(p, q, L) == LET num == Abs(p[1] * D - q * p[2])
                     den == p[2] * D
                     g == Gcd(num, den)
                 IN IF num = 0 THEN 0 ELSE IF L = 0 THEN Half(num \div g, den \div g) ELSE Fix(Pow(num \div g, L), Pow(den \div g, L), K)

(* absorption of the physical point, 1 - R - T: zero exactly when rescaled *)
AbsP(r, t) == IF Unphysical(r, t) THEN <<0, D>> ELSE <<D - r - t, D>>

N(c) == Len(c.R)
RTerm(c, i) == Term(Phys(c.R[i], c.R[i], c.T[i]), c.RT[i], c.L)
TTerm(c, i) == Term(Phys(c.T[i], c.R[i], c.T[i]), c.TT[i], c.L)
ATerm(c, i) == IF c.abs THEN Term(AbsP(c.R[i], c.T[i]), D - c.RT[i] - c.TT[i], c.L) ELSE 0

(* the accumulation the implementation performs, frequency by frequency *)
RECURSIVE Acc(_, _)
Acc(c, i) == IF i = 0 THEN 0 ELSE Acc(c, i - 1) + RTerm(c, i) + TTerm(c, i) + ATerm(c, i)
Loss(c) == Acc(c, N(c)) \div ((IF c.abs THEN 3 ELSE 2) * N(c))
Renorm(c) == \E i \in 1..N(c) : Exceeds(c, i)

(* likelihood regularisation: P is a sequence of points, a point a sequence over 0..D *)
MinDist(p, L) == IF L = 0 THEN Min2(Half(p, D), Half(D - p, D)) ELSE Min2(Fix(Pow(p, L), Pow(D, L), K), Fix(Pow(D - p, L), Pow(D, L), K))
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Reg(P, L) == LET f == Flat(P) IN SumSeq([i \in 1..Len(f) |-> MinDist(f[i], L)]) \div Len(f)
RegMax(P) == SumSeq([i \in 1..Len(P) |-> Fix(D - MaxSeq(P[i]), D, K)]) \div Len(P)

----------------------------------------------------------------------------
(* verdict on one recorded call *)
BadSpec(o) ==
  LET c == o.case IN
  (IF o.outcome # "ok" THEN {"raised"} ELSE
   (IF Near(o.loss, Loss(c), 4) THEN {} ELSE {"loss"}) \cup
   (IF o.flag = Renorm(c) THEN {} ELSE {"renormalised_flag"}) \cup
   (IF o.mutated THEN {"input_modified"} ELSE {}))
BadReg(o) ==
  LET c == o.case IN
  (IF o.outcome # "ok" THEN {"raised"} ELSE
   (IF Near(o.loss, IF c.max THEN RegMax(c.P) ELSE Reg(c.P, c.L), 4) THEN {} ELSE {"regularisation"}) \cup
   (IF o.mutated THEN {"input_modified"} ELSE {}))
Bad(o) == IF o.kind = "spec" THEN BadSpec(o) ELSE BadReg(o)
============================================================================
