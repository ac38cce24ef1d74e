-------------------------------- MODULE C08 --------------------------------
(* Regression model -> permittivity grid.
   The model is the function Out below (component 0 = real, 1 = imaginary), evaluated on a coarse grid; its values
   are multiples of 1/16 and may lie outside [0,1].  Ranges are given in hundredths, permittivities in units of 1/6400
   (so that 1/100 is 64 units and everything is an integer).  With noise of scale c.ns (in thousandths) every part may
   move by a multiple of scale times the width of its own range. *)
EXTENDS Num, TLC, FiniteSets
CUT == 64
Cl(ok, name) == IF ok THEN {} ELSE {name}
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x

(* output of the scripted network for block (bi, bj), layer l, frequency f, component k, in sixteenths, within lo..lo+span *)
Out(c, bi, bj, l, f, k) == ((7 * bi + 13 * bj + 29 * l + 37 * f + 11 * k + c.seed) % c.span) + c.olo
(* stored weight of the scripted voxel model, in sixteenths *)
Weight(c, i, j, l, f, k) == ((17 * i + 23 * j + 31 * l + 41 * f + 5 * k + c.seed) % 97) - 40

Lo(c, k) == (IF k = 0 THEN c.rmin ELSE c.imin) * 64
Hi(c, k) == (IF k = 0 THEN c.rmax ELSE c.imax) * 64
(* weights of voxel models are finer for narrow ranges *)
Unit(c) == IF c.rmax - c.rmin < 10 THEN 20 ELSE 400
Affine(c, o, k) == Clip(Lo(c, k) + (o * (Hi(c, k) - Lo(c, k))) \div 16, Lo(c, k), Hi(c, k))
AvoidZero(x) == IF x = 0 THEN CUT ELSE IF Abs(x) < CUT THEN (IF x > 0 THEN CUT ELSE -CUT) ELSE x

Value(c, i, j, l, f, k) ==
  LET raw == IF c.model = "voxel" THEN Clip(Weight(c, i, j, l, f, k) * Unit(c), Lo(c, k), Hi(c, k))
             ELSE Affine(c, Out(c, i \div c.os, j \div c.os, l, f, k), k)
  IN IF k = 0 /\ c.avoid THEN AvoidZero(raw) ELSE raw
InRange(c, x, k) == (x >= Lo(c, k) - 1 /\ x <= Hi(c, k) + 1) \/ (k = 0 /\ c.avoid /\ Abs(x) = CUT)

(* largest change by noise: (|z| + 1/2) * 2 * scale * width with |z| < 6.5 *)
Reach(c, k) == ((((Hi(c, k) - Lo(c, k)) \div 100) * 14 * c.ns) \div 10) + 14 * c.ns + 2
(* zero-avoidance may add one cutoff *)
Moved(c, x, v, k) == Abs(x - v) <= Reach(c, k) + (IF k = 0 /\ c.avoid THEN 2 * CUT ELSE 0)
(* a value in the middle of a range: noise of scale 0.3 is visible there *)
Middle(c, v, k) == LET w == Hi(c, k) - Lo(c, k) IN w > 640 /\ v - Lo(c, k) > w \div 4 /\ Hi(c, k) - v > w \div 4

(* where the network is asked: evenly spaced points of [-1, 1] in x and y, layers at their accumulated thickness over
   [-1000, 1000] (o.thick in thousandths), frequencies evenly over [-32, 32], or proportional to the frequency (o.fr in
   10^-4 of the largest one) over the same interval if the distribution is logarithmic.  Coordinates in 10^-4 (z: 10^-1) *)
Even(n, k, half) == IF n = 1 THEN -half ELSE -half + (2 * half * k) \div (n - 1)
RECURSIVE Sum(_, _)
Sum(s, n) == IF n < 2 THEN 0 ELSE s[n] + Sum(s, n - 1)
LayerAt(o, l) ==
  LET c == o.case  z == o.at[3][l + 1]  t == o.thick IN
  IF Len(t) = 1 THEN Near(z, Even(c.nl, l, 10000), 2)
  ELSE LET tot == Sum(t, Len(t)) IN Abs((z + 10000) * tot - 20000 * Sum(t, l + 1)) <= 2 * tot
FreqAt(o, f) == IF o.case.log THEN Near(o.at[4][f + 1], 64 * o.fr[f + 1] - 320000, 80) ELSE Near(o.at[4][f + 1], Even(o.case.nf, f, 320000), 8)
Asked(o) ==
  LET c == o.case IN
  /\ Len(o.at[1]) = c.nx \div c.os /\ Len(o.at[2]) = c.ny \div c.os /\ Len(o.at[3]) = c.nl /\ Len(o.at[4]) = c.nf
  /\ \A i \in 1..Len(o.at[1]) : Near(o.at[1][i], Even(c.nx \div c.os, i - 1, 10000), 2)
  /\ \A j \in 1..Len(o.at[2]) : Near(o.at[2][j], Even(c.ny \div c.os, j - 1, 10000), 2)
  /\ \A l \in 0..(c.nl - 1) : LayerAt(o, l)
  /\ \A f \in 0..(c.nf - 1) : FreqAt(o, f)

(* o.eps[i][j][l][f] = <<re, im>> (1-based); o.hp the same in units of 10^-6 of the real part only near zero *)
Cells(c) == {<<i, j, l, f>> : i \in 0..(c.nx - 1), j \in 0..(c.ny - 1), l \in 0..(c.nl - 1), f \in 0..(c.nf - 1)}
At(o, q) == o.eps[q[1] + 1][q[2] + 1][q[3] + 1][q[4] + 1]
Bad(o) ==
  LET c == o.case IN
  Cl(o.outcome = "ok", "raised") \cup
  (IF o.outcome # "ok" THEN {} ELSE
   Cl(o.shape = <<c.nx, c.ny, c.nl, c.nf>>, "grid_shape") \cup
   Cl(o.material_ids = "none", "regression_returns_material_ids") \cup
   (IF o.shape # <<c.nx, c.ny, c.nl, c.nf>> THEN {} ELSE
     Cl(\A q \in Cells(c) : InRange(c, At(o, q)[1], 0) /\ InRange(c, At(o, q)[2], 1), "range") \cup
     Cl(c.avoid => \A q \in Cells(c) : Abs(At(o, q)[1]) >= CUT, "zero_avoidance") \cup
     Cl(c.model # "voxel" => Asked(o), "coordinates") \cup
     (IF c.noise THEN
       Cl(\A q \in Cells(c) : Moved(c, At(o, q)[1], Value(c, q[1], q[2], q[3], q[4], 0), 0), "noise_moves_the_real_part_too_far") \cup
       Cl(\A q \in Cells(c) : Moved(c, At(o, q)[2], Value(c, q[1], q[2], q[3], q[4], 1), 1), "noise_moves_the_imaginary_part_too_far") \cup
       Cl(c.ns = 300 => \A k \in {0, 1} :
            LET mid == {q \in Cells(c) : Middle(c, Value(c, q[1], q[2], q[3], q[4], k), k)} IN
            Cardinality(mid) < 4 \/ \E q \in mid : ~Near(At(o, q)[k + 1], Value(c, q[1], q[2], q[3], q[4], k), 2), "no_noise")
      ELSE
       Cl(\A q \in Cells(c) : Near(At(o, q)[1], Value(c, q[1], q[2], q[3], q[4], 0), 1), "real_part") \cup
       Cl(\A q \in Cells(c) : Near(At(o, q)[2], Value(c, q[1], q[2], q[3], q[4], 1), 1), "imaginary_part"))))
============================================================================
