------------------------------- MODULE C23 -------------------------------
(* The RCWA solver class used directly: oblique incidence, polarisation, anisotropic layers,
   diffraction orders, fields inside the stack and the power absorbed there.

   Part 1 (films).  All layers share the tangential wave number beta (in units of k0).  A medium is
   given by its normal wave number q = (a + i b)/D (code into QTab); its permittivity is q^2 + beta^2.
   Oblique incidence is normal incidence on media of effective index
        q           for the s polarisation,
        eps/q       for the p polarisation,
   with the phase q k0 d.  An anisotropic layer of kind k > 1 has eps_z = k beta^2, the in-plane component
   along the plane of incidence q^2 k/(k-1) and q^2 + beta^2 across: the effective p index is q k/(k-1).

   Part 2 (ledger).  The power that enters a stack of patterned layers is reflected, absorbed layer
   by layer or transmitted; the walk through the stack is the state machine of Gen_C23. *)
EXTENDS Num, Big, ThinFilm, FiniteSets, TLC

QTab == << [a |-> 1, b |-> 0, D |-> 1], [a |-> 3, b |-> 0, D |-> 2], [a |-> 2, b |-> 0, D |-> 1], [a |-> 1, b |-> 0, D |-> 2],   \* 1..4 propagating
           [a |-> 0, b |-> 1, D |-> 1], [a |-> 0, b |-> 1, D |-> 2], [a |-> 0, b |-> 3, D |-> 2],                                \* 5..7 evanescent
           [a |-> 1, b |-> 1, D |-> 1], [a |-> 3, b |-> 1, D |-> 2] >>                                                          \* 8, 9 absorbing half-spaces
(* beta = n/d *)
BetaTab == << [n |-> 0, d |-> 1], [n |-> 1, d |-> 2], [n |-> 1, d |-> 1], [n |-> 3, d |-> 2], [n |-> 2, d |-> 1] >>
(* polarisations: amplitudes in units of 1/5 *)
PolTab == << [p |-> 5, s |-> 0], [p |-> 0, s |-> 5], [p |-> 3, s |-> 4], [p |-> 4, s |-> 3] >>
Ph(c, ci, s, si, h) == [c |-> c, ci |-> ci, s |-> s, si |-> si, h |-> h]
PhaseTab == << Ph(3, 0, 4, 0, 5), Ph(5, 0, 12, 0, 13), Ph(0, 0, 1, 0, 1), Ph(24, 0, 7, 0, 25),   \* 1..4 real
               Ph(5, 0, 0, 3, 4), Ph(5, 0, 0, 4, 3) >>                                           \* 5, 6: i ln 2, i ln 3
Propagating(q) == QTab[q].b = 0
Evanescent(q) == QTab[q].a = 0

(* effective index of medium q (kind k) for polarisation pol, as [a, b, D] in lowest terms *)
Reduce(a, b, D) == LET g == Gcd(Gcd(Abs(a), Abs(b)), D) IN [a |-> a \div g, b |-> b \div g, D |-> D \div g]
Index(be, q, k, pol) ==
  LET m == QTab[q]
      B == BetaTab[be]
      r2 == m.a * m.a + m.b * m.b
  IN IF pol = "s" THEN m
     ELSE IF k > 1 THEN Reduce(m.a * k, m.b * k, m.D * (k - 1))
     ELSE Reduce(m.a * B.d * B.d * r2 + B.n * B.n * m.D * m.D * m.a,
                 m.b * B.d * B.d * r2 - B.n * B.n * m.D * m.D * m.b, m.D * B.d * B.d * r2)
Merge(n, p) == [a |-> n.a, b |-> n.b, D |-> n.D, c |-> p.c, ci |-> p.ci, s |-> p.s, si |-> p.si, h |-> p.h]
RECURSIVE StackOf(_, _, _)
StackOf(be, ls, pol) ==
  IF ls = <<>> THEN Stack(<<>>, 0)
  ELSE MatMul(LayerMatrix(Merge(Index(be, ls[1].q, ls[1].k, pol), PhaseTab[ls[1].p]), ls[1].j), StackOf(be, Tail(ls), pol))
RTOf(cs, pol) == RTof(StackOf(cs.be, cs.layers, pol), Index(cs.be, cs.top, 0, pol), Index(cs.be, cs.bot, 0, pol))

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
(* a medium whose effective index vanishes (eps = 0) has no transfer matrix *)
Sound(cs) == \A pol \in {"s", "p"} :
               LET ok(q, k) == LET x == Index(cs.be, q, k, pol) IN x.a /= 0 \/ x.b /= 0
               IN ok(cs.bot, 0) /\ \A i \in 1..Len(cs.layers) : ok(cs.layers[i].q, cs.layers[i].k)
(* the phase goes with the kind of wave; anisotropy needs a tangential wave number *)
Layer(be, l) == /\ Evanescent(l.q) <=> l.p >= 5
                /\ l.k > 1 => be > 1 /\ Propagating(l.q)
Film(cs) == /\ Propagating(cs.top)
            /\ \A i \in 1..Len(cs.layers) : Layer(cs.be, cs.layers[i])
            /\ Sound(cs)

(* design-level facts *)
Physical(cs, pol) ==
  LET x == RTOf(cs, pol) IN
  /\ x.R.s = 1 /\ NCmp(x.R.m, x.den.m) <= 0
  /\ cs.bot <= 7 => BAdd(x.R, x.T) = x.den          \* nothing absorbs but the last two half-spaces
  /\ NCmp(BAdd(x.R, x.T).m, x.den.m) <= 0
  /\ Evanescent(cs.bot) => x.T = BZero              \* total reflection
Reciprocal(cs, pol) ==
  Propagating(cs.bot) =>
    LET x == RTOf(cs, pol)
        y == RTOf([cs EXCEPT !.layers = Rev(@), !.top = cs.bot, !.bot = cs.top], pol)
    IN BMul(x.T, y.den) = BMul(y.T, x.den)
(* at normal incidence the polarisations agree *)
Normal(cs) == (cs.be = 1 /\ \A i \in 1..Len(cs.layers) : cs.layers[i].k <= 1) =>
    LET x == RTOf(cs, "s")
        y == RTOf(cs, "p")
    IN BMul(x.R, y.den) = BMul(y.R, x.den)

(* --------------------------------------------------- conformance of a film (unit 10^-6) *)
Mix(cs, pol, part) ==
  LET w == PolTab[pol]
      x == RTOf(cs, "p")
      y == RTOf(cs, "s")
      of(z) == IF part = "R" THEN BRatio(z.R, z.den, 6) ELSE BRatio(z.T, z.den, 6)
  IN ((IF w.p = 0 THEN 0 ELSE w.p * w.p * of(x)) + (IF w.s = 0 THEN 0 ELSE w.s * w.s * of(y))) \div 25
(* radiation pressure and shear on the two half-spaces: an order of power P and wave vector k carries
   the momentum P k/omega; the incident power in the solver's unit is q0/eps0 *)
FilmBad(r) ==
  LET R == Mix(r, r.pol, "R")
      T == Mix(r, r.pol, "T")
      q0 == QTab[r.top]
      B == BetaTab[r.be]
      (* 1/eps0 = e.n/e.d *)
      e == [n |-> B.d * B.d * q0.D * q0.D, d |-> q0.a * q0.a * B.d * B.d + B.n * B.n * q0.D * q0.D]
      tol == r.tol
      scale(x, n, d) == LET g == Gcd(n, d) IN (x \div (d \div g)) * (n \div g)
      tz == scale(1000000 + R, q0.a * q0.a * e.n, q0.D * q0.D * e.d)
      tt(x) == scale(x, B.n * q0.a * e.n, B.d * q0.D * e.d)
  IN (IF Near(r.R, R, tol) THEN {} ELSE {"reflectance"})
     \cup (IF Near(r.T, T, tol) THEN {} ELSE {"transmittance"})
     \cup (IF Near(r.top_tz, 0 - tz, 8 * tol) THEN {} ELSE {"pressure above"})
     \cup (IF Near(r.top_tt, 0 - tt(1000000 - R), 8 * tol) /\ Near(r.top_tc, 0, 8 * tol) THEN {} ELSE {"shear above"})
     \cup (IF Propagating(r.bot) /\ ~Near(r.bot_tz, 0 - scale(T, QTab[r.bot].a * q0.a * e.n, QTab[r.bot].D * q0.D * e.d), 8 * tol) THEN {"pressure below"} ELSE {})
     \cup (IF Propagating(r.bot) /\ ~(Near(r.bot_tt, 0 - tt(T), 8 * tol) /\ Near(r.bot_tc, 0, 8 * tol)) THEN {"shear below"} ELSE {})
     \cup (IF r.bot <= 7 /\ ~Near(r.R + r.T, 1000000, 2 * tol) THEN {"energy"} ELSE {})

(* --------------------------------------------------- conformance of a patterned stack (unit 10^-7)
   flux[i] = power flux at the top, in the middle and at the bottom of layer i; abs[i] = absorbed there *)
LTol == 300
Lossless(r, i) == ~r.lossy[i]
LedgerBad(r) ==
  LET n == Len(r.flux) IN
  (IF Near(r.flux[1][1], 10000000 - r.R, LTol) THEN {} ELSE {"power entering the first layer"})
  \cup (IF Near(r.flux[n][3], r.T, LTol) THEN {} ELSE {"power leaving the last layer"})
  \cup {"power lost at an interface" : i \in {i \in 1..(n - 1) : ~Near(r.flux[i][3], r.flux[i + 1][1], LTol)}}
  \cup {"power absorbed in a layer" : i \in {i \in 1..n : ~Near(r.flux[i][1] - r.flux[i][3], r.abs[i], LTol)}}
  \cup {"absorption in a lossless layer" : i \in {i \in 1..n : Lossless(r, i) /\ ~(Near(r.abs[i], 0, LTol) /\ Near(r.flux[i][2], r.flux[i][1], LTol))}}
  \cup {"gain" : i \in {i \in 1..n : r.abs[i] < 0 - LTol \/ r.flux[i][1] < r.flux[i][2] - LTol \/ r.flux[i][2] < r.flux[i][3] - LTol}}
  \cup (IF Near(r.R + r.T + SumSeq(r.abs), 10000000, LTol) THEN {} ELSE {"energy balance"})
(* diffraction orders: (kx, ky)/k0 in units of 10^-3 from the order's indices *)
KX(r, g) == r.bx + (g[1] * 1000 * r.wl) \div r.lx
KY(r, g) == r.by + (g[2] * 1000 * r.wl - (g[1] * 1000 * r.wl * r.sk) \div r.lx) \div r.ly
K2(r, g) == LET c(x) == IF Abs(x) > 20000 THEN 20000 ELSE x IN (c(KX(r, g)) * c(KX(r, g))) \div 1000 + (c(KY(r, g)) * c(KY(r, g))) \div 1000
Dark(r, g, eps) == 100 * K2(r, g) > 102 * eps
Bright(r, g, eps) == 100 * K2(r, g) < 98 * eps
OrdersBad(r) ==
  LET n == Len(r.G) IN
  IF Len(r.Ro) /= n \/ Len(r.To) /= n THEN {"number of orders"}
  ELSE (IF Near(SumSeq(r.Ro), r.R, 50) /\ Near(SumSeq(r.To), r.T, 50) THEN {} ELSE {"sum over orders"})
       \cup (IF n > 0 /\ r.G[1] = <<0, 0>> /\ Cardinality({r.G[i] : i \in 1..n}) = n THEN {} ELSE {"order list"})
       \cup {"power in an evanescent order" : i \in {i \in 1..n : (Dark(r, r.G[i], r.etop) /\ ~Near(r.Ro[i], 0, 50)) \/ (Dark(r, r.G[i], r.ebot) /\ ~Near(r.To[i], 0, 50))}}
       \cup {"negative power in an order" : i \in {i \in 1..n : r.Ro[i] < 0 - 50 \/ r.To[i] < 0 - 50}}
       \cup (IF r.method = 1 THEN LET m == CHOOSE m \in 0..20 : (2 * m + 1) * (2 * m + 1) <= r.NG /\ (2 * m + 3) * (2 * m + 3) > r.NG
                                  IN IF {r.G[i] : i \in 1..n} = {<<x, y>> : x \in (0 - m)..m, y \in (0 - m)..m} THEN {} ELSE {"parallelogram of orders"}
             ELSE IF n <= r.NG /\ \A i \in 1..n : <<0 - r.G[i][1], 0 - r.G[i][2]>> \in {r.G[j] : j \in 1..n} THEN {} ELSE {"circle of orders"})
(* observed deviations of quantities that have to agree (unit 10^-7) *)
Tolerances == [jump |-> 200, grid |-> 100, list |-> 0, profile |-> 100, cross |-> 100, linear |-> 100, amp |-> 100, weights |-> 500,
               flipR |-> 300, flipT |-> 300, pscaleR |-> 300, pscaleT |-> 300, isoR |-> 100, isoT |-> 100, divz |-> 200,
               backjump |-> 200, backflux |-> 300, mirrorR |-> 300, mirrorT |-> 300, turnR |-> 300, turnT |-> 300, aniso_profile |-> 100, aniso_balance |-> 300, stress |-> 100]
DevBad(r) == {d \in DOMAIN r.dev : ~(IsNum(r.dev[d]) /\ r.dev[d] <= Tolerances[d])}
StackBad(r) == LedgerBad(r) \cup OrdersBad(r) \cup DevBad(r)
Bad(r) == IF r.out /= "ok" THEN {"raised"} ELSE IF ~(IsNum(r.R) /\ IsNum(r.T)) THEN {"not a number"} ELSE IF r.kind = "film" THEN FilmBad(r) ELSE StackBad(r)
==========================================================================
