------------------------------- MODULE C21 -------------------------------
(* What the plots of a run must show.  A case c: kind, nx, ny, nl, nf, seed and options.  The run's
   permittivities, targets, given spectra and logs are prescribed functions of the case:
     eps(x, y, l, f)  = (V(.., 0) + i V(.., 1)) / 8,
     spectra          in thousandths, logs in thousandths.
   Observed values: eps-like in units of 1/400 (an eighth is 50 units), spectra in 10^-6, positions and
   wavelengths (micrometres) in 10^-3. *)
EXTENDS Num, FiniteSets, TLC

Cl(ok, name) == IF ok THEN {} ELSE {name}
V(c, x0, y0, l, f, k) ==      \* os: oversampling, blocks of os x os cells are alike
  LET x == x0 \div c.os  y == y0 \div c.os IN ((17 * x + 23 * y + 31 * l + 41 * f + 5 * k + 7 * x * l + 11 * y * f + c.seed) % 97) - 40
Target(c, f, k) == (137 * f + 251 * k + 61 * c.seed) % 499
Given(c, f, k) == (173 * f + 307 * k + 29 * c.seed) % 499
LogLen(c) == 1 + ((c.seed * 23) % 47) + (IF c.seed % 4 = 1 THEN 1200 ELSE 0)
LogOf(c, i, k) == 1 + ((97 * i + 211 * k + 13 * c.seed) % 900)

Points(c) == {<<x, y, l>> : x \in 0..(c.nx - 1), y \in 0..(c.ny - 1), l \in 0..(c.nl - 1)}
(* position of the i-th of n grid points on [-1, 1] *)
Pos(i, n) == IF n = 1 THEN -1000 ELSE ((4000 * i + (n - 1)) \div (2 * (n - 1))) - 1000
At(c, p) == <<Pos(p[1], c.nx), Pos(p[2], c.ny), Pos(p[3], c.nl)>>

RECURSIVE SumF(_, _, _)
SumF(c, p, k) == LET RECURSIVE g(_)
                     g(f) == IF f = 0 THEN 0 ELSE V(c, p[1], p[2], p[3], f - 1, k) + g(f - 1)
                 IN g(c.nf)
SumSq(c, p) == LET RECURSIVE g(_)
                   g(f) == IF f = 0 THEN 0 ELSE V(c, p[1], p[2], p[3], f - 1, 0) * V(c, p[1], p[2], p[3], f - 1, 0)
                                              + V(c, p[1], p[2], p[3], f - 1, 1) * V(c, p[1], p[2], p[3], f - 1, 1) + g(f - 1)
               IN g(c.nf)
(* v (1/400) is a square root of s (1/64), up to tol *)
IsRoot(v, s, tol) == /\ v >= 0 /\ IsNum(v) /\ v < 30000
                     /\ (IF v > tol THEN (v - tol) * (v - tol) ELSE 0) <= s * 2500 /\ s * 2500 <= (v + tol) * (v + tol)
(* what the marker of point p must carry *)
AbsMean(c, p, v) == Abs(v) < 8000 /\ IsRoot(v * c.nf, SumF(c, p, 0) * SumF(c, p, 0) + SumF(c, p, 1) * SumF(c, p, 1), 2 * c.nf)
NormF(c, p, v) == IsRoot(v, SumSq(c, p), 2)
Part(c, p, f, k, v) == Near(v, 50 * V(c, p[1], p[2], p[3], f, k), 1)

(* one marker per grid point, at its place, carrying the right value *)
MarkersOK(c, ms, Val(_, _)) ==
  /\ Len(ms) = c.nx * c.ny * c.nl
  /\ \A p \in Points(c) : LET at == At(c, p)
                              here == {i \in 1..Len(ms) : Near(ms[i][1], at[1], 1) /\ Near(ms[i][2], at[2], 1) /\ Near(ms[i][3], at[3], 1)}
                          IN Cardinality(here) = 1 /\ \A i \in here : Val(p, ms[i][4])
(* index of a point in the flattened grids of the record *)
Flat(c, p) == 1 + (p[1] * c.ny + p[2]) * c.nl + p[3]

SameSeq(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], tol)
LineNamed(ax, name) == {i \in 1..Len(ax.lines) : ax.lines[i].label = name}
(* exactly one line of that name, with these data *)
Curve(ax, name, xs, ys, tol) ==
  Cardinality(LineNamed(ax, name)) = 1 /\ \A i \in LineNamed(ax, name) : SameSeq(ax.lines[i].x, xs, 1) /\ SameSeq(ax.lines[i].y, ys, tol)
AxesOf(r, s) == {i \in 1..Len(r.axes) : r.axes[i].ylabel = s}
ThreeD(r) == {i \in 1..Len(r.axes) : r.axes[i].dim = 3}
One(S) == CHOOSE x \in S : TRUE

(* ------------------------------------------------------------ spectra *)
Prod(r, k) == IF r.c.given THEN [f \in 1..r.c.nf |-> 1000 * Given(r.c, f - 1, k)] ELSE r.prod[k + 1]
Targ(r, k) == [f \in 1..r.c.nf |-> 1000 * Target(r.c, f - 1, k)]
L1Of(r, k) == SumSeq([f \in 1..r.c.nf |-> Abs(Prod(r, k)[f] - Targ(r, k)[f])]) \div r.c.nf
SpectraBad(r) ==
  UNION {LET name == <<"Reflectance", "Transmittance">>[k + 1]
             A == AxesOf(r, name) IN
         IF Cardinality(A) /= 1 THEN {"axes"} ELSE
         LET ax == r.axes[One(A)] IN
         Cl(Curve(ax, "Target " \o name, r.wl, Targ(r, k), 2), "target spectrum")
         \cup Cl(Curve(ax, "Produced " \o name, r.wl, Prod(r, k), 2), "produced spectrum")
         \cup Cl(Len(ax.nums) = 1 /\ Near(ax.nums[1], L1Of(r, k), 60), "L1 error") : k \in {0, 1}}
SpectrumBad(r) ==
  LET names == IF r.c.absorb THEN <<"Reflectance", "Transmittance", "Absorptance">> ELSE <<"Reflectance", "Transmittance">>
      Y(k) == IF k < 2 THEN Prod(r, k) ELSE [f \in 1..r.c.nf |-> 1000000 - Prod(r, 0)[f] - Prod(r, 1)[f]] IN
  Cl(Cardinality({i \in 1..Len(r.axes) : r.axes[i].dim = 2}) = Len(names), "axes")
  \cup UNION {LET A == AxesOf(r, names[k + 1]) IN
         IF Cardinality(A) /= 1 THEN {"axes"} ELSE
         Cl(Curve(r.axes[One(A)], "Produced " \o names[k + 1], r.wl, Y(k), 2), "spectrum") : k \in 0..(Len(names) - 1)}
LossesBad(r) ==
  IF Len(r.axes) /= 1 THEN {"axes"} ELSE
  UNION {Cl(Curve(r.axes[1], <<"L1", "Loss", "Weighted Average Loss">>[k], [i \in 1..LogLen(r.c) |-> 1000 * (i - 1)],
                  [i \in 1..LogLen(r.c) |-> 1000 * LogOf(r.c, i - 1, k)], 2), "log") : k \in 1..3}
(* ------------------------------------------------------------ grids *)
GridBad(r) ==
  IF Cardinality(ThreeD(r)) /= 1 THEN {"axes"} ELSE
  LET ms == r.axes[One(ThreeD(r))].markers
      ModelVal(p, v) == AbsMean(r.c, p, v)
      EpsVal(p, v) == NormF(r.c, p, v)
  IN Cl(IF r.c.kind = "modelgrid" THEN MarkersOK(r.c, ms, ModelVal) ELSE MarkersOK(r.c, ms, EpsVal), "grid values")
     \cup Cl(r.axes[One(ThreeD(r))].layers = [l \in 1..r.c.nl |-> <<Pos(l - 1, r.c.nl), l>>], "layer labels")
PerFreqBad(r) ==
  LET T == ThreeD(r) IN
  IF Cardinality(T) /= 2 * Len(r.c.idx) THEN {"axes"} ELSE
  UNION {UNION {
      LET A == {a \in T : r.axes[a].imag = (k = 1) /\ Near(r.axes[a].title, r.wl[r.c.idx[i] + 1], 6)}
          Val(p, v) == Part(r.c, p, r.c.idx[i], k, v) IN
      IF Cardinality(A) /= 1 THEN {"panel"} ELSE Cl(MarkersOK(r.c, r.axes[One(A)].markers, Val), "grid values") : k \in {0, 1}} : i \in 1..Len(r.c.idx)}
  \cup Cl(\A a, b \in T : r.axes[a].imag = r.axes[b].imag => r.axes[a].clim = r.axes[b].clim, "colour scale")
  \cup Cl(\A a \in T : \A m \in 1..Len(r.axes[a].markers) :
            r.axes[a].markers[m][4] >= r.axes[a].clim[1] - 1 /\ r.axes[a].markers[m][4] <= r.axes[a].clim[2] + 1, "colour scale")
MaterialBad(r) ==
  LET T == ThreeD(r)
      G == {a \in T : r.axes[a].ticks /= <<>>}
      E == T \ G
      Id(p, v) == v = 400 * r.close[Flat(r.c, p)]
      Er(p, v) == Near(v, r.err[Flat(r.c, p)], 1) IN
  IF Cardinality(G) /= 1 \/ Cardinality(E) /= (IF r.c.err THEN 1 ELSE 0) THEN {"axes"} ELSE
  Cl(MarkersOK(r.c, r.axes[One(G)].markers, Id), "materials")
  \cup Cl(r.axes[One(G)].ticks = [i \in 1..Len(r.names) |-> [at |-> 400 * i, label |-> r.names[i]]], "material names")
  \cup (IF r.c.err THEN Cl(MarkersOK(r.c, r.axes[One(E)].markers, Er), "errors") ELSE {})
(* ------------------------------------------------------------ permittivity curves *)
EpsCurve(c, p, k) == [f \in 1..c.nf |-> 50 * V(c, p[1], p[2], p[3], f - 1, k)]
Compared(r) == IF r.c.mats /= <<>> THEN {r.c.mats[i] : i \in 1..Len(r.c.mats)}
               ELSE {r.names[r.close[i]] : i \in 1..Len(r.close)}
RowOf(r, n, k) == LET i == CHOOSE i \in 1..Len(r.names) : r.names[i] = n IN r.rows[i][k + 1]
PointBad(r) ==
  UNION {LET A == {a \in 1..Len(r.axes) : r.axes[a].imag = (k = 1)} IN
    IF Cardinality(A) /= 1 THEN {"axes"} ELSE
    LET ax == r.axes[One(A)]
        solid == {i \in 1..Len(ax.lines) : ~ax.lines[i].dashed}
        dash == {i \in 1..Len(ax.lines) : ax.lines[i].dashed}
        Has(S, y) == Cardinality({i \in S : SameSeq(ax.lines[i].x, r.wl, 1) /\ SameSeq(ax.lines[i].y, y, 1)})
        Same(y, z) == SameSeq(y, z, 1)
    IN Cl(Cardinality(solid) = Cardinality(Points(r.c)), "curves")
       \cup UNION {Cl(Has(solid, EpsCurve(r.c, p, k)) = Cardinality({q \in Points(r.c) : Same(EpsCurve(r.c, p, k), EpsCurve(r.c, q, k))}), "curves") : p \in Points(r.c)}
       \cup (IF k = 0 /\ r.c.legend
             THEN UNION {Cl(LET name == "Layer " \o ToString(p[3]) \o " - (x,y)=(" \o ToString(p[1]) \o "," \o ToString(p[2]) \o ")"
                                I == {i \in solid : ax.lines[i].label = name}
                            IN Cardinality(I) = 1 /\ \A i \in I : SameSeq(ax.lines[i].y, EpsCurve(r.c, p, 0), 1), "legend") : p \in Points(r.c)}
             ELSE {})
       \cup Cl(Cardinality(dash) = Cardinality(Compared(r)), "material curves")
       \cup UNION {Cl(Has(dash, RowOf(r, n, k)) >= 1, "material curves") : n \in Compared(r)}
       \cup UNION {Cl(\E i \in 1..Len(ax.texts) : ax.texts[i].label = n /\ Near(ax.texts[i].y, RowOf(r, n, k)[1], 1)
                                                  /\ Near(ax.texts[i].x, MaxSeq(r.wl), 1), "material names") : n \in Compared(r)}
       \cup Cl(Len(ax.texts) = Cardinality(Compared(r)), "material names") : k \in {0, 1}}
PrintBad(r) == Cl(\A i \in 1..Len(r.printed) : r.printed[i].found, "entry not printed")

Default(k) == CASE k = "spectra" -> "spectra_comparison" [] k = "spectrum" -> "spectrum" [] k = "losses" -> "losses"
                [] k = "modelgrid" -> "model_grid" [] k = "epsgrid" -> "eps_grid" [] k = "perfreq" -> "model_grid_per_freq"
                [] k = "material" -> "material_grid" [] OTHER -> ""
FileBad(r) ==
  IF r.c.kind = "print" THEN {} ELSE
  IF r.c.save THEN Cl(r.shown = 0 /\ Len(r.files) = 1 /\ r.files[1].dir, "file")
                   \cup Cl(r.files = <<>> \/ r.files[1].name = (IF r.c.fname /= "" /\ r.c.kind \in {"spectra", "spectrum"} THEN r.c.fname ELSE Default(r.c.kind))
                           \/ r.c.kind = "point", "file name")
  ELSE Cl(r.shown = 1 /\ r.files = <<>>, "shown")
Bad(r) ==
  IF r.out /= "ok" THEN {"raised"}
  ELSE Cl(r.kept, "run changed") \cup FileBad(r)
       \cup (CASE r.c.kind = "spectra" -> SpectraBad(r)
               [] r.c.kind = "spectrum" -> SpectrumBad(r)
               [] r.c.kind = "losses" -> LossesBad(r)
               [] r.c.kind \in {"modelgrid", "epsgrid"} -> GridBad(r)
               [] r.c.kind = "perfreq" -> PerFreqBad(r)
               [] r.c.kind = "material" -> MaterialBad(r)
               [] r.c.kind = "point" -> PointBad(r)
               [] OTHER -> PrintBad(r))
==========================================================================
