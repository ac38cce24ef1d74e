------------------------------- MODULE C11 -------------------------------
(* Symmetries of RCWA spectra of patterned stacks.
   A structure: Nx, Ny, layers = sequence of [t |-> thickness, c |-> cells (sequence of Nx
   sequences of Ny permittivity codes)], lx, ly = lattice periods, wl = wavelength (all lengths
   in the same unit).  The lattice vectors are b[1] = b11 A + b12 B and b[2] = b21 A + b22 B of the
   physical lattice A = (lx, 0), B = (sk, ly); cell (x, y) lies at (x-1)/Nx b[1] + (y-1)/Ny b[2].
   The operations below leave its reflectance and transmittance unchanged. *)
EXTENDS Num, FiniteSets, TLC

Mod1(i, n) == ((i - 1) % n) + 1
Shift(s, dx, dy) ==
  [s EXCEPT !.layers = [k \in 1..Len(s.layers) |->
     [t |-> s.layers[k].t,
      c |-> [x \in 1..s.Nx |-> [y \in 1..s.Ny |-> s.layers[k].c[Mod1(x + dx, s.Nx)][Mod1(y + dy, s.Ny)]]]]]]
MirrorX(s) ==
  [s EXCEPT !.layers = [k \in 1..Len(s.layers) |->
     [t |-> s.layers[k].t, c |-> [x \in 1..s.Nx |-> s.layers[k].c[s.Nx + 1 - x]]]]]
MirrorY(s) ==
  [s EXCEPT !.layers = [k \in 1..Len(s.layers) |->
     [t |-> s.layers[k].t, c |-> [x \in 1..s.Nx |-> [y \in 1..s.Ny |-> s.layers[k].c[x][s.Ny + 1 - y]]]]]]
(* cut layer k into a quarter and three quarters *)
Split(s, k) ==
  LET q == s.layers[k].t \div 4 IN
  [s EXCEPT !.layers = SubSeq(@, 1, k - 1) \o << [t |-> q, c |-> @[k].c], [t |-> @[k].t - q, c |-> @[k].c] >>
                        \o SubSeq(@, k + 1, Len(@))]
Scale(s, f) ==
  [s EXCEPT !.lx = @ * f, !.ly = @ * f, !.sk = @ * f, !.wl = @ * f,
            !.layers = [k \in 1..Len(s.layers) |-> [t |-> @[k].t * f, c |-> @[k].c]]]
UniformX(s) == \A k \in 1..Len(s.layers) : \A x \in 1..s.Nx : s.layers[k].c[x] = s.layers[k].c[1]
UniformY(s) == \A k \in 1..Len(s.layers) : \A x \in 1..s.Nx : \A y \in 1..s.Ny : s.layers[k].c[x][y] = s.layers[k].c[x][1]
(* a different number of cells along a direction in which nothing varies *)
RepX(s, n) == [s EXCEPT !.Nx = n, !.layers = [k \in 1..Len(s.layers) |-> [t |-> @[k].t, c |-> [x \in 1..n |-> @[k].c[1]]]]]
RepY(s, n) == [s EXCEPT !.Ny = n, !.layers = [k \in 1..Len(s.layers) |->
                 [t |-> @[k].t, c |-> [x \in 1..s.Nx |-> [y \in 1..n |-> @[k].c[x][1]]]]]]

(* one-dimensional patterns (the other period far below the wavelength, so that only orders along the
   pattern are kept): two periods taken as one, and another period along the uniform direction.
   mx, my: factor of the period in units of 1/2; sup: number of periods taken as one *)
SupX(s) == [s EXCEPT !.Nx = 2 * @, !.lx = 2 * @, !.mx = 2 * @, !.sup = 2 * @, !.layers = [k \in 1..Len(s.layers) |->
             [t |-> @[k].t, c |-> [x \in 1..(2 * s.Nx) |-> @[k].c[Mod1(x, s.Nx)]]]]]
SupY(s) == [s EXCEPT !.Ny = 2 * @, !.ly = 2 * @, !.my = 2 * @, !.sup = 2 * @, !.layers = [k \in 1..Len(s.layers) |->
             [t |-> @[k].t, c |-> [x \in 1..s.Nx |-> [y \in 1..(2 * s.Ny) |-> @[k].c[x][Mod1(y, s.Ny)]]]]]]
PerX(s) == [s EXCEPT !.lx = (@ \div 2) * 3, !.mx = 3]
PerY(s) == [s EXCEPT !.ly = (@ \div 2) * 3, !.my = 3]
AlongX(s) == UniformY(s) /\ s.lx >= 7 * s.ly
AlongY(s) == UniformX(s) /\ s.ly >= 7 * s.lx
(* truncation: with NG = 2m an odd number 2m-1 of orders is kept; a supercell needs all orders in between *)
NGof(s, ng) == IF ng <= 3 THEN ng ELSE (ng - 2) * s.sup + 2

(* another basis of the same lattice: b[2] + f b[1] for b[2], b[1] + f b[2] for b[1] (f = 1 or -1) *)
Shear2(s, f) == [s EXCEPT !.b = <<@[1], <<@[2][1] + f * @[1][1], @[2][2] + f * @[1][2]>>>>, !.layers = [k \in 1..Len(s.layers) |->
               [t |-> @[k].t, c |-> [x \in 1..s.Nx |-> [y \in 1..s.Ny |-> @[k].c[Mod1(x + f * (y - 1), s.Nx)][y]]]]]]
Shear1(s, f) == [s EXCEPT !.b = <<<<@[1][1] + f * @[2][1], @[1][2] + f * @[2][2]>>, @[2]>>, !.layers = [k \in 1..Len(s.layers) |->
               [t |-> @[k].t, c |-> [x \in 1..s.Nx |-> [y \in 1..s.Ny |-> @[k].c[x][Mod1(y + f * (x - 1), s.Ny)]]]]]]
(* half a turn about the normal *)
Turn(s) == [s EXCEPT !.layers = [k \in 1..Len(s.layers) |-> [t |-> @[k].t,
               c |-> [x \in 1..s.Nx |-> [y \in 1..s.Ny |-> @[k].c[s.Nx + 1 - x][s.Ny + 1 - y]]]]]]
Unit == <<<<1, 0>>, <<0, 1>>>>
Plain(s) == s.sk = 0 /\ s.b = Unit
Vec(s, v) == <<v[1] * s.lx + v[2] * s.sk, v[2] * s.ly>>
(* the orientation of the lattice vectors the configuration accepts *)
Accepted(s) == LET u == Vec(s, s.b[1])  v == Vec(s, s.b[2]) IN u[1] > u[2] /\ u[2] >= 0 /\ v[2] > v[1] /\ v[1] >= 0
Det(b) == b[1][1] * b[2][2] - b[1][2] * b[2][1]

Op(name, a, b) == [op |-> name, a |-> a, b |-> b]
Enabled(s, o) ==
  CASE o.op = "shift" -> o.a < s.Nx /\ o.b < s.Ny /\ o.a + o.b > 0
    [] o.op = "mirx" -> s.Nx > 1 /\ Plain(s)
    [] o.op = "miry" -> s.Ny > 1 /\ Plain(s)
    [] o.op = "split" -> o.a <= Len(s.layers) /\ s.layers[o.a].t % 4 = 0
    [] o.op = "scale" -> TRUE
    [] o.op = "repx" -> Plain(s) /\ UniformX(s) /\ o.a >= s.Nx
    [] o.op = "repy" -> Plain(s) /\ UniformY(s) /\ o.a >= s.Ny
    [] o.op = "supx" -> Plain(s) /\ AlongX(s) /\ s.sup = 1
    [] o.op = "supy" -> Plain(s) /\ AlongY(s) /\ s.sup = 1
    [] o.op = "perx" -> Plain(s) /\ AlongY(s) /\ s.mx = 2
    [] o.op = "pery" -> Plain(s) /\ AlongX(s) /\ s.my = 2
    [] o.op \in {"shear1", "shear2"} -> s.Nx = s.Ny /\ s.Nx > 1 /\ Accepted(IF o.op = "shear1" THEN Shear1(s, o.a) ELSE Shear2(s, o.a))
    [] o.op = "turn" -> s.Nx > 1 /\ s.Ny > 1
    [] OTHER -> FALSE
Apply(s, o) ==
  CASE o.op = "shift" -> Shift(s, o.a, o.b)
    [] o.op = "mirx" -> MirrorX(s)
    [] o.op = "miry" -> MirrorY(s)
    [] o.op = "split" -> Split(s, o.a)
    [] o.op = "scale" -> Scale(s, o.a)
    [] o.op = "repx" -> RepX(s, o.a)
    [] o.op = "repy" -> RepY(s, o.a)
    [] o.op = "supx" -> SupX(s)
    [] o.op = "supy" -> SupY(s)
    [] o.op = "perx" -> PerX(s)
    [] o.op = "pery" -> PerY(s)
    [] o.op = "shear1" -> Shear1(s, o.a)
    [] o.op = "shear2" -> Shear2(s, o.a)
    [] o.op = "turn" -> Turn(s)
RECURSIVE ApplyAll(_, _)
ApplyAll(s, os) == IF os = <<>> THEN s ELSE ApplyAll(Apply(s, os[1]), Tail(os))

Structure(s) == [Nx |-> s.Nx, Ny |-> s.Ny, layers |-> s.layers, lx |-> s.lx, ly |-> s.ly, sk |-> s.sk, b |-> s.b, wl |-> s.wl, mx |-> s.mx, my |-> s.my, sup |-> s.sup]

(* ------------------------------------------------- design-level facts *)
SumRow(r) == SumSeq(r)
Total(l) == SumSeq([x \in 1..Len(l.c) |-> SumRow(l.c[x])])
Height(s) == SumSeq([k \in 1..Len(s.layers) |-> s.layers[k].t])
(* the amount of every permittivity (code-weighted volume), relative to the volume of the period *)
Content(s) == SumSeq([k \in 1..Len(s.layers) |-> s.layers[k].t * Total(s.layers[k])])
(* s is the base structure or one of its images: same content per cell, same shape ratios *)
SameContent(b, s) == Content(s) * b.Nx * b.Ny * b.wl = Content(b) * s.Nx * s.Ny * s.wl
SameRatios(b, s) == /\ Height(s) * b.wl = Height(b) * s.wl
                    /\ 2 * s.lx * b.wl = b.lx * s.wl * s.mx /\ 2 * s.ly * b.wl = b.ly * s.wl * s.my

(* ------------------------------------------------------------ conformance
   r: base structure with R, T (unit 10^-7), lossless flag, zeroth (only the zeroth order kept),
   vars = sequence of [ops, s, out, R, T]; mean = [out, R, T] of the uniform stack with the
   averages (given as sums, one per layer) *)
Tol(ops) == IF \E i \in 1..Len(ops) : ops[i].op = "scale" THEN 3000 ELSE 100
VarBad(r, v) ==
  LET s == ApplyAll(Structure(r), v.ops) IN
  IF s /= v.s \/ v.ng /= NGof(s, r.v.NG) THEN {"binding"}
  ELSE IF v.out /= "ok" THEN {"raised"}
  ELSE IF Near(v.R, r.R, Tol(v.ops)) /\ Near(v.T, r.T, Tol(v.ops)) THEN {} ELSE {v.ops[Len(v.ops)].op}
MeanBad(r) ==
  IF ~r.zeroth THEN {}
  ELSE IF r.mean.sums /= [k \in 1..Len(r.layers) |-> r.sums[k]] THEN {"binding"}
  ELSE IF r.mean.out /= "ok" THEN {"raised"}
  ELSE IF Near(r.mean.R, r.R, 100) /\ Near(r.mean.T, r.T, 100) THEN {} ELSE {"average"}
(* without guided-mode resonances (which store light long enough for the built-in loss to show) a
   lossless structure conserves energy; nmax is ten times the largest refractive index *)
NoResonance(r) == r.nmax * (Max2(r.lx, r.ly) + Abs(r.sk)) < 10 * r.wl
Bad(r) ==
  IF r.out /= "ok" THEN {"raised"}
  ELSE (IF IsNum(r.R) /\ IsNum(r.T) /\ r.R >= -100 /\ r.T >= -100 /\ r.R + r.T <= 10000100 THEN {} ELSE {"bounds"})
       \cup (IF r.lossless /\ NoResonance(r) /\ r.R + r.T < 10000000 - 20000 THEN {"energy"} ELSE {})
       \cup UNION {VarBad(r, r.vars[i]) : i \in 1..Len(r.vars)}
       \cup MeanBad(r)
==========================================================================
