-------------------------------- MODULE C18 --------------------------------
(* Gradients.  The specification differentiates the exact optics of specs/Waves.tla (thin films for the
   TRCWA solver, the discrete steady state for FDTD) by central differences in nine-decimal fixed point.
   Records:
   film  c = [layers <<[a, b, th]>> index (a + ib)/10, thickness th/100, fs (frequencies in 1/1000), nx, ny, ng]
         g[k] = for output frequency k: sequence over (layer, frequency) of [rr, ri, tr, ti] = the sum over the
         cells of the gradients of R and T with respect to Re and Im of the permittivity (units 10^-6),
         spread = largest deviation of a cell from the mean, same units
   grid  gradients of a patterned grid: per sampled entry the gradients g, two difference quotients d1 (step h) and
         d2 (step 2h); cross = largest gradient towards entries of other frequencies; sums for the energy balance
   fdtd  as grid, plus the derivative of the discrete optics
   train per parameter tensor the gradient used by the optimiser step along a direction and the difference
         quotients of the loss logged by one-iteration runs from displaced parameters *)
EXTENDS Num, Waves, FiniteSets
Cl(ok, name) == IF ok THEN {} ELSE {name}

(* ------------------------------------------------------------- thin films *)
H3 == FNano(1000000)                                  \* step of the permittivity, 10^-3
Inv(n) == LET q == TLCEval(ZAbs2(n)) IN C(FDiv(n.re, q), FNeg(FDiv(n.im, q)))      \* 1/n for |n| > 1/2
Idx(l) == C(FRat(l.a, 10), FRat(l.b, 10))
(* n -> n + delta/(2n), delta = s h (part "re") or s i h (part "im") *)
Shift(n, part, s) ==
  LET w == TLCEval(ZScale(FDivI(H3, 2), Inv(n)))
      v == IF part = "re" THEN w ELSE C(FNeg(w.im), w.re)
  IN IF s = 0 THEN n ELSE IF s = 1 THEN ZAdd(n, v) ELSE ZSub(n, v)
FilmAt(c, f, j, part, s) ==
  FilmRT([i \in 1..Len(c.layers) |->
     LET n == TLCEval(Shift(Idx(c.layers[i]), part, IF i = j THEN s ELSE 0))
         base == TLCEval(FDivI(FMul(TwoPI, FInt(f * c.layers[i].th)), 100000))
     IN [n |-> n, ninv |-> TLCEval(Inv(n)), ph |-> ZScale(base, n)]])
(* derivatives of R and T in units of 10^-6 *)
FilmD(c, f, j, part) ==
  LET p == TLCEval(FilmAt(c, f, j, part, 1))
      m == TLCEval(FilmAt(c, f, j, part, -1))
      d(a, b) == (FRatio(a, p.den, 9) - FRatio(b, m.den, 9)) \div 2
  IN <<d(p.R, m.R), d(p.T, m.T)>>
Sz(x) == 500 + Abs(x) \div 100
FilmOne(c, f, j, g) ==
  LET re == TLCEval(FilmD(c, f, j, "re")) im == TLCEval(FilmD(c, f, j, "im")) IN
  IF ~(IsNum(g.rr) /\ IsNum(g.ri) /\ IsNum(g.tr) /\ IsNum(g.ti)) THEN {"not a number"} ELSE
  Cl(Near(g.rr, re[1], Sz(re[1])), "dR/dRe") \cup Cl(Near(g.tr, re[2], Sz(re[2])), "dT/dRe") \cup
  Cl(Near(g.ri, im[1], Sz(im[1])), "dR/dIm") \cup Cl(Near(g.ti, im[2], Sz(im[2])), "dT/dIm")
FilmBad(o) ==
  LET c == o.case nf == Len(c.fs) IN
  Cl(Len(o.g) = nf, "one result per frequency") \cup
  (IF Len(o.g) # nf THEN {} ELSE
   UNION {UNION {FilmOne(c, c.fs[k], j, o.g[k][j]) : j \in 1..Len(c.layers)} : k \in 1..nf}) \cup
  Cl(IsNum(o.spread) /\ o.spread <= 20, "equal share of every cell") \cup Cl(o.cross = 0, "gradient from another frequency")

(* ------------------------------------------------- differences of the code *)
(* e = [g, d1, d2]: gradient and difference quotients with steps h and 2h, common integer scale *)
Smooth(e, big) == IsNum(e.d1) /\ IsNum(e.d2) /\ Near(e.d1, e.d2, 20 + big \div 500)
DiffBad(es, big) ==
  UNION {LET e == es[i] IN
         IF ~IsNum(e.g) THEN {"not a number"}
         ELSE IF ~Smooth(e, big) THEN {}
         ELSE Cl(Near(e.g, e.d1, 40 + big \div 200), "gradient differs from the derivative")
         : i \in 1..Len(es)}
GridBad(o) ==
  DiffBad(o.es, o.big) \cup Cl(o.cross = 0, "gradient from another frequency") \cup Cl(o.nan = 0, "not a number") \cup
  Cl(o.zero = 0, "no gradient") \cup
  (IF o.lossless THEN Cl(\A i \in 1..Len(o.bal) : Near(o.bal[i][1], -o.bal[i][2], 20 + o.big \div 500), "gradients of R and T cancel") \cup
                      Cl(\A i \in 1..Len(o.bal) : o.bal[i][3] <= 20 + o.big \div 500, "absorption raises R + T")
   ELSE {})

(* ----------------------------------------------------------------- FDTD *)
YeeLayer(c, wl, l, part, s) ==
  LET re0 == FRat(l.re, 100) im0 == FRat(l.im, 100)
      re == IF part = "re" /\ s # 0 THEN (IF s = 1 THEN FAdd(re0, H3) ELSE FSub(re0, H3)) ELSE re0
      im == IF part = "im" /\ s # 0 THEN (IF s = 1 THEN FAdd(im0, H3) ELSE FSub(im0, H3)) ELSE im0
  IN [eps |-> re, cells |-> l.cells,
      f |-> FDivI(FMul(FMul(FMul(Cour, PI9), FInt(1000)), FDiv(im, re)), wl * c.S)]
YeeAt(c, wl, j, part, s) ==
  YeeRT([i \in 1..Len(c.layers) |-> YeeLayer(c, wl, c.layers[i], part, IF i = j THEN s ELSE 0)],
        ((wl * c.S * 2857) \div 2000 + 500) \div 1000)
YeeD(c, wl, j, part) ==
  LET p == TLCEval(YeeAt(c, wl, j, part, 1))
      m == TLCEval(YeeAt(c, wl, j, part, -1))
      d(a, b) == (FRatio(a, p.den, 9) - FRatio(b, m.den, 9)) \div 2
  IN <<d(p.R, m.R), d(p.T, m.T)>>
Sf(x) == 60000 + Abs(x) \div 10
FdtdOne(c, wl, j, g) ==
  LET re == TLCEval(YeeD(c, wl, j, "re")) im == TLCEval(YeeD(c, wl, j, "im")) IN
  IF ~(IsNum(g.rr) /\ IsNum(g.ri) /\ IsNum(g.tr) /\ IsNum(g.ti)) THEN {"not a number"} ELSE
  Cl(Near(g.rr, re[1], Sf(re[1])), "FDTD dR/dRe") \cup Cl(Near(g.tr, re[2], Sf(re[2])), "FDTD dT/dRe") \cup
  Cl(Near(g.ri, im[1], Sf(im[1])), "FDTD dR/dIm") \cup Cl(Near(g.ti, im[2], Sf(im[2])), "FDTD dT/dIm")
FdtdBad(o) ==
  LET c == o.case IN
  Cl(o.cross = 0, "gradient from another frequency") \cup DiffBad(o.es, o.big) \cup
  Cl(Len(o.rt) = Len(c.wls), "one result per frequency") \cup
  (* where the measured R + T reaches one it is normalised, and no longer follows the optics *)
  UNION {UNION {FdtdOne(c, c.wls[k], j, o.g[k][j]) : j \in 1..Len(c.layers)} : k \in {k \in 1..Len(o.rt) : o.rt[k] < 998000}}

(* -------------------------------------------------------------- training *)
TrainBad(o) ==
  UNION {LET s == o.steps[i] IN DiffBad(s.es, s.big) \cup Cl(s.nan = 0, "not a number") : i \in 1..Len(o.steps)} \cup
  Cl(Len(o.steps) = o.iterations, "one optimiser step per iteration")

Bad(o) == IF o.out # "ok" THEN {"raised " \o o.out}
          ELSE CASE o.kind = "film" -> FilmBad(o) [] o.kind = "grid" -> GridBad(o)
                 [] o.kind = "fdtd" -> FdtdBad(o) [] o.kind = "train" -> TrainBad(o)
============================================================================
