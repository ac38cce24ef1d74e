-------------------------------- MODULE C15 --------------------------------
(* The FDTD scene that belongs to a configuration.
   c: pml, free, thick (sequence; one entry is shared by all nl layers), srcx, srcy, lmin, lmax, wl: lengths in nm;
      det (grid points), minpts (grid points per micrometre), source, pulse, nl, nf,
      eps: per frequency the layers' <<real, imaginary>> permittivity in tenths. *)
EXTENDS Num, TLC, FiniteSets
Cl(ok, name) == IF ok THEN {} ELSE {name}

(* grid points per micrometre: the larger of the minimum and ten per shortest wavelength *)
Sn(c) == IF c.lmin * c.minpts >= 10000 THEN c.minpts ELSE 10000
Sd(c) == IF c.lmin * c.minpts >= 10000 THEN 1 ELSE c.lmin
Num1(c, len) == len * Sn(c)
Den1(c) == Sd(c) * 1000
Cell(c, len) == Num1(c, len) \div Den1(c)
(* lengths that are whole multiples of 1/8 micrometre are exact in binary *)
Dyadic(c) == Sd(c) = 1 /\ \A x \in {c.pml, c.free, c.srcx, c.srcy} \cup {c.thick[i] : i \in 1..Len(c.thick)} : x % 125 = 0
(* a boundary that falls exactly on a grid point may round down by one when the lengths are not exact *)
AtCell(c, len, got) == got = Cell(c, len) \/ (~Dyadic(c) /\ Num1(c, len) % Den1(c) = 0 /\ got = Cell(c, len) - 1)

Thick(c, i) == IF Len(c.thick) = 1 THEN c.thick[1] ELSE c.thick[i]
RECURSIVE Depth(_, _)
Depth(c, i) == IF i = 0 THEN 0 ELSE Thick(c, i) + Depth(c, i - 1)
Surface(c) == c.pml + c.free
Start(c, i) == Surface(c) + Depth(c, i - 1)
End(c, i) == Surface(c) + Depth(c, i)
Total(c) == 2 * c.pml + 2 * c.free + Depth(c, c.nl)
SizeOK(c, n) == AtCell(c, Total(c), n)
PmlCells(c) == Cell(c, c.pml)
RDet(c) == Cell(c, Surface(c)) - c.det
TDet(c) == Cell(c, End(c, c.nl)) + c.det
LayerAt(c, x) == {i \in 1..c.nl : Cell(c, Start(c, i)) <= x /\ x < Cell(c, End(c, i))}
(* layers a column may belong to; 0 is free space *)
Owners(c, x) ==
  (IF LayerAt(c, x) = {} THEN {0} ELSE LayerAt(c, x))
  \cup (IF Dyadic(c) THEN {} ELSE
        {i \in 1..c.nl : Num1(c, Start(c, i)) % Den1(c) = 0 /\ Cell(c, Start(c, i)) - 1 = x}
        \cup (IF Num1(c, End(c, c.nl)) % Den1(c) = 0 /\ Cell(c, End(c, c.nl)) - 1 = x THEN {0} ELSE {}))

(* ------------------------------------------------------------- material *)
Ppw(c, wl) == (wl * Sn(c)) \div Sd(c)          \* grid points per wavelength times 1000
(* absorption factor courant * pi * (im/re) / (grid points per wavelength), courant = 0.99/sqrt 2, in 10^-6 *)
Absorb(c, e, wl) ==
  LET a == (2199227 * e[2]) \div Abs(e[1])
      v == LongDiv(a, Ppw(c, wl), 3)
  IN IF e[1] < 0 THEN -v ELSE v
ColumnOK(c, col, e, wl) ==
  /\ Near(col.lo, e[1] * 1000, 2) /\ Near(col.hi, e[1] * 1000, 2)
  /\ Near(col.f, Absorb(c, e, wl), 3 + Abs(Absorb(c, e, wl)) \div 500)
Free == <<10, 0>>
MaterialBad(c, cols, fi, wl, with) ==
  UNION {LET x == j - 1 IN
         Cl(\E i \in (IF with THEN Owners(c, x) ELSE {0}) :
              ColumnOK(c, cols[j], IF i = 0 THEN Free ELSE c.eps[fi][i], wl), IF with THEN "layer material" ELSE "free-space run has material")
         : j \in 1..Len(cols)}

(* ------------------------------------------------- waveforms (units of 10^-4) *)
RECURSIVE SinT(_)
SinT(x) ==           \* 0 <= x <= pi/2
  LET y == (x * x) \div 10000
      a == 10000 - y \div 72
      b == 10000 - ((y \div 7) * a) \div 60000
      d == 10000 - ((y \div 4) * b) \div 50000
      e == 10000 - ((y \div 2) * d) \div 30000
  IN (x * e) \div 10000
TWOPI == 62832
SinF(x0) == LET x == x0 % TWOPI IN
  CASE x <= 15708 -> SinT(x) [] x <= 31416 -> SinT(31416 - x)
    [] x <= 47124 -> -SinT(x - 31416) [] OTHER -> -SinT(TWOPI - x)
CosF(x) == SinF(x + 15708)
RECURSIVE ExpN(_)
ExpN(v) ==           \* exp(-v), v >= 0
  IF v > 120000 THEN 0
  ELSE IF v > 6931 THEN ExpN(v - 6931) \div 2
  ELSE 10000 - (v * (10000 - (v * (10000 - ((v \div 3) * (10000 - (v \div 4) + ((v \div 4) * (v \div 5)) \div 10000)) \div 10000)) \div 20000)) \div 10000
(* period in whole time steps; time steps per wavelength = grid points per wavelength / courant *)
PerX(c, wl) == (Ppw(c, wl) * 2857) \div 2000
Period(c, wl) == (PerX(c, wl) + 500) \div 1000
Ambiguous(c, wl) == LET r == (PerX(c, wl) + 500) % 1000 IN r < 25 \/ r > 975
Wave(c, wl, q) ==
  CASE c.pulse = "continuous" -> SinF((TWOPI * (q % Period(c, wl))) \div Period(c, wl))
    [] c.pulse = "ricker" ->
         LET u == (q * 7000357) \div Ppw(c, wl) - 10000
             w == (Abs(u) * 31416) \div 10000
             v == (w * w) \div 10000
         IN IF u > 12000 \/ w > 36000 THEN 0 ELSE ((10000 - 2 * v) * ExpN(v)) \div 10000
    [] c.pulse = "hanning" ->      \* five cycles; 1/period is the angular frequency, one time step counts as 1 fs
         LET a == (q * 2997925) \div wl IN
         IF a >= 5 * TWOPI THEN 0 ELSE (((10000 - CosF(a \div 5)) \div 2) * SinF(a)) \div 10000
SourceCells(c) == IF c.source = "line" THEN {0, 1, 2} ELSE {Cell(c, c.srcy) % 3}
(* the y row may be the one below if the position is not exact *)
SourceRow(c, ys) == \/ ys = SourceCells(c)
                    \/ c.source = "point" /\ ~Dyadic(c) /\ Num1(c, c.srcy) % Den1(c) = 0
                       /\ ys = {(Cell(c, c.srcy) + 2) % 3}
SourceBad(c, wl, src) ==
  UNION {LET s == src[k] ys == {s.cells[j][2] : j \in 1..Len(s.cells)} IN
         Cl(Near(s.sum, Wave(c, wl, s.q), 25), "source signal")
         \cup (IF Abs(Wave(c, wl, s.q)) < 50 THEN {}
               ELSE IF s.cells = <<>> THEN {"source cells"}
               ELSE Cl(\A j \in 1..Len(s.cells) : AtCell(c, c.srcx, s.cells[j][1]), "source position")
                    \cup Cl(SourceRow(c, ys) /\ Len(s.cells) = Cardinality(ys), "source cells")
                    \cup Cl(c.source = "line" => s.cells[1][3] = s.cells[Len(s.cells)][3], "line source symmetric"))
         : k \in 1..Len(src)}

(* ----------------------------------------------------------------- scene
   s: n (columns), ny, nz, spacing (10^-6 of 1/scaling), cols, pmlLo, pmlHi, det: readings [[x, y]] per detector, src, wrapE, wrapH *)
DetAt(c, d, x, off) == Len(d) = 3 /\ \A y \in 1..3 : d[y][2] = y - 1 /\ AtCell(c, x, d[y][1] - off)
SceneBad(c, s, fi, wl, with) ==
  Cl(SizeOK(c, s.n) /\ s.ny = 3 /\ s.nz = 1, "grid size") \cup
  Cl(Near(s.spacing, 1000000, 3), "grid spacing") \cup
  Cl(AtCell(c, c.pml, s.pmlLo), "absorbing boundary at low x") \cup
  Cl(AtCell(c, c.pml, s.pmlHi), "absorbing boundary at high x") \cup
  Cl(s.wrap, "periodic y edges") \cup
  Cl(Len(s.det) = 2, "two detectors") \cup
  (IF Len(s.det) # 2 THEN {} ELSE
   Cl(DetAt(c, s.det[1], End(c, c.nl), c.det), "transmission detector") \cup
   Cl(DetAt(c, s.det[2], Surface(c), -c.det), "reflection detector")) \cup
  MaterialBad(c, s.cols, fi, wl, with) \cup SourceBad(c, wl, s.src)

WlOf(c, fi) == IF fi = 1 THEN c.lmax ELSE c.lmin
Bad(o) ==
  LET c == o.case IN
  Cl(o.out = "ok", "raised") \cup
  (IF o.out # "ok" THEN {} ELSE
   Cl(Near(o.scaling, LongDiv(Sn(c), Sd(c), 4), 2), "grid scaling") \cup
   (IF o.kind = "scene"
    THEN SceneBad(c, o.free, 1, c.wl, FALSE) \cup SceneBad(c, o.mat, 1, c.wl, TRUE)
         \cup Cl(o.free.n = o.mat.n /\ o.free.det = o.mat.det, "reference geometry")
    ELSE Cl(Len(o.runs) = 2 * c.nf, "two simulations per frequency") \cup
         Cl(\A k \in 1..Len(o.runs) : o.runs[k].steps = c.niter, "time steps run") \cup
         UNION {Cl(\E k \in 1..Len(o.runs) : SceneBad(c, o.runs[k], fi, WlOf(c, fi), FALSE) = {}, "reference run of a frequency")
                \cup Cl(\E k \in 1..Len(o.runs) : SceneBad(c, o.runs[k], fi, WlOf(c, fi), TRUE) = {}, "material run of a frequency")
                : fi \in 1..c.nf}))
============================================================================
