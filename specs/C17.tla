-------------------------------- MODULE C17 --------------------------------
(* FDTD spectra of uniform stacks.  c: S (grid points per micrometre, a power of two), pml, free, det
   (grid points), layers <<[a, b, cells]>> with index (a + ib)/10, lmin, lmax (nm), nf (1 or 2), source,
   srcx, srcy (grid points), niter, kind ("base", "split", "reverse"). *)
EXTENDS Num, Waves, FiniteSets
Cl(ok, name) == IF ok THEN {} ELSE {name}
Wl(c, i) == IF i = 1 THEN c.lmax ELSE c.lmin
(* period of the source in whole time steps: S * wavelength / courant *)
PerX(c, wl) == (wl * c.S * 2857) \div 2000
Period(c, wl) == (PerX(c, wl) + 500) \div 1000
Ambiguous(c, wl) == LET r == (PerX(c, wl) + 500) % 1000 IN r < 30 \/ r > 970
Re_(l) == l.a * l.a - l.b * l.b
Im_(l) == 2 * l.a * l.b
YeeLayer(c, wl, l) ==
  [eps |-> FRat(Re_(l), 100), cells |-> l.cells,
   f |-> FDivI(FMul(FMul(FMul(Cour, PI9), FInt(1000)), FRat(Im_(l), Re_(l))), wl * c.S)]
FilmLayer(c, wl, l) ==
  LET base == FDivI(FMul(TwoPI, FInt(l.cells * 100)), wl * c.S) IN
  [n |-> C(FRat(l.a, 10), FRat(l.b, 10)),
   ninv |-> C(FRat(10 * l.a, l.a * l.a + l.b * l.b), FNeg(FRat(10 * l.b, l.a * l.a + l.b * l.b))),
   ph |-> C(FMul(base, FInt(l.a)), FMul(base, FInt(l.b)))]
Yee(c, wl) == YeeRT([i \in 1..Len(c.layers) |-> YeeLayer(c, wl, c.layers[i])], Period(c, wl))
Film(c, wl) == FilmRT([i \in 1..Len(c.layers) |-> FilmLayer(c, wl, c.layers[i])])
R4(x) == FRatio(x.R, x.den, 4)
T4(x) == FRatio(x.T, x.den, 4)
FreeStack(c) == \A i \in 1..Len(c.layers) : c.layers[i].a = 10 /\ c.layers[i].b = 0
Lossless(c) == \A i \in 1..Len(c.layers) : c.layers[i].b = 0

(* measured values: units of 10^-6.  The measurement averages over a finite window that may still contain a rest of
   the transient, in numerator and denominator: tolerance 0.012 + 5% *)
Tol(x) == 120 + x \div 20
PointBad(c, i, r, t) ==
  IF ~(IsNum(r) /\ IsNum(t)) THEN {"not a number"}
  ELSE Cl(r >= 0 /\ t >= 0, "negative") \cup Cl(r + t <= 1020000, "R + T above 1") \cup
       (IF FreeStack(c) THEN Cl(Abs(r) <= 1 /\ Near(t, 1000000, 62000), "free space") ELSE
        LET y == TLCEval(Yee(c, Wl(c, i))) IN
        Cl(Near(r \div 100, R4(y), Tol(R4(y))), "reflectance") \cup Cl(Near(t \div 100, T4(y), Tol(T4(y))), "transmittance"))
RunBad(c, r, t) ==
  Cl(Len(r) = c.nf /\ Len(t) = c.nf, "one value per frequency") \cup
  (IF Len(r) # c.nf \/ Len(t) # c.nf THEN {} ELSE UNION {PointBad(c, i, r[i], t[i]) : i \in 1..c.nf})
SameRT(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], tol)
Bad(o) ==
  LET c == o.case IN
  Cl(o.out = "ok", "raised") \cup
  (IF o.out # "ok" THEN {} ELSE
   IF "pulse" \in DOMAIN c
   THEN (IF \A i \in 1..Len(o.r) : IsNum(o.r[i]) /\ IsNum(o.t[i]) /\ o.r[i] >= 0 /\ o.t[i] >= 0 /\ o.r[i] + o.t[i] <= 1020000
         THEN {} ELSE {"unphysical spectrum of a pulse source"})
   ELSE RunBad(c, o.r, o.t) \cup
        UNION {LET v == o.var[k] IN
               CASE v.kind = "split" -> Cl(SameRT(v.r, o.r, 2) /\ SameRT(v.t, o.t, 2), "splitting a layer")
                 [] v.kind = "reverse" -> Cl(~Lossless(c) \/ SameRT(v.t, o.t, 62000), "reversed order")
               : k \in 1..Len(o.var)})
============================================================================
