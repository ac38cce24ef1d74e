------------------------------- MODULE C10 -------------------------------
(* RCWA = exact thin-film optics for stacks of uniform layers.
   A case: layers = sequence of [n, p, j] codes (index, base phase, multiplicity: the layer is
   j base phases thick at the base frequency), top, bot = half-space codes, ms = the frequencies
   as multiples of the base frequency.  An observation adds Nx, Ny, NG, shared and the
   computed R, T in units of 10^-6. *)
EXTENDS Num, Big, ThinFilm, FiniteSets, TLC

(* refractive indices (a + i b)/D *)
IndexTab == <<
  [a |-> 1, b |-> 0, D |-> 1], [a |-> 3, b |-> 0, D |-> 2], [a |-> 2, b |-> 0, D |-> 1],
  [a |-> 3, b |-> 0, D |-> 1], [a |-> 1, b |-> 0, D |-> 2],                      \* 1..5 dielectrics
  [a |-> 0, b |-> 1, D |-> 1], [a |-> 0, b |-> 2, D |-> 1], [a |-> 0, b |-> 1, D |-> 2],  \* 6..8 ideal metals (eps < 0)
  [a |-> 100000, b |-> 44127, D |-> 100000], [a |-> 100000, b |-> 44127, D |-> 50000],    \* 9, 10 absorbers, quarter wave
  [a |-> 100000, b |-> 22064, D |-> 100000], [a |-> 100000, b |-> 22064, D |-> 66667],    \* 11, 12 absorbers, half wave
  [a |-> 20, b |-> 0, D |-> 1], [a |-> 0, b |-> 20, D |-> 1] >>                           \* 13, 14 extreme contrast (thin films)
(* phases: cos = (c + i ci)/h, sin = (s + i si)/h *)
Ph(c, ci, s, si, h) == [c |-> c, ci |-> ci, s |-> s, si |-> si, h |-> h]
PhaseTab == <<
  Ph(3, 0, 4, 0, 5), Ph(5, 0, 12, 0, 13), Ph(0, 0, 1, 0, 1), Ph(-1, 0, 0, 0, 1), Ph(24, 0, 7, 0, 25),  \* 1..5 real
  Ph(5, 0, 0, 3, 4), Ph(5, 0, 0, 4, 3),                          \* 6, 7: i ln 2, i ln 3
  Ph(0, -3, 5, 0, 4), Ph(-5, 0, 0, -3, 4),                       \* 8: pi/2 + i ln 2, 9: pi + i ln 2
  Ph(9999, 0, 200, 0, 10001), Ph(5101, 0, 0, 101, 5100) >>       \* 10: 2 arctan(1/100), 11: i ln(51/50)
HalfTab == << [a |-> 1, b |-> 0, D |-> 1], [a |-> 3, b |-> 0, D |-> 2], [a |-> 2, b |-> 0, D |-> 1],
              [a |-> 0, b |-> 2, D |-> 1], [a |-> 3, b |-> 0, D |-> 1],
              [a |-> 29, b |-> 0, D |-> 20], [a |-> 11, b |-> 0, D |-> 8] >>

Merge(n, p) == [a |-> n.a, b |-> n.b, D |-> n.D, c |-> p.c, ci |-> p.ci, s |-> p.s, si |-> p.si, h |-> p.h]
LayerOf(l) == Merge(IndexTab[l.n], PhaseTab[l.p])
(* the matrix of a layer of multiplicity j at frequency multiple m has phase j*m *)
RECURSIVE StackOf(_, _)
StackOf(ls, m) ==
  IF ls = <<>> THEN Stack(<<>>, 0)
  ELSE MatMul(LayerMatrix(LayerOf(ls[1]), ls[1].j * m), StackOf(Tail(ls), m))
RTOf(cs, m) ==
  LET M == StackOf(cs.layers, m)
  IN RTof(M, HalfTab[cs.top], HalfTab[cs.bot])

Lossless(cs) == (\A i \in 1..Len(cs.layers) : cs.layers[i].n \in 1..8 \cup {13, 14})
Transparent(cs) == cs.bot /= 4
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

(* design-level facts, checked for every generated case *)
Physical(cs, m) ==
  LET x == RTOf(cs, m) IN
  /\ NCmp(x.R.m, x.den.m) <= 0 /\ x.R.s = 1 /\ x.T.s = 1
  /\ NCmp(BAdd(x.R, x.T).m, x.den.m) <= 0
  /\ Lossless(cs) => BAdd(x.R, x.T) = x.den
  /\ (~Transparent(cs)) => x.T = BZero
Reciprocal(cs, m) ==
  Transparent(cs) =>
    LET x == RTOf(cs, m)
        y == RTOf([layers |-> Rev(cs.layers), top |-> cs.bot, bot |-> cs.top], m)
    IN BMul(x.T, y.den) = BMul(y.T, x.den)

(* ------------------------------------------------------------ conformance *)
(* deviation allowed by the solver's built-in relative loss of 10^-5 (unit 10^-6) *)
Tol(r) == r.tol
OneBad(r, k) ==
  LET x == RTOf(r, r.ms[k]) IN
  {c \in {"reflectance", "transmittance", "bounds", "energy"} :
     IF c = "reflectance" THEN ~Near(r.R[k], BRatio(x.R, x.den, 6), Tol(r))
     ELSE IF c = "transmittance" THEN ~Near(r.T[k], BRatio(x.T, x.den, 6), Tol(r))
     ELSE IF c = "bounds" THEN ~(r.R[k] >= -20 /\ r.T[k] >= -20 /\ r.R[k] + r.T[k] <= 1000020)
     ELSE ~(Lossless(r) => r.R[k] + r.T[k] >= 1000000 - Tol(r))}
Bad(r) ==
  IF r.out /= "ok" THEN {"raised"}
  ELSE IF Len(r.R) /= Len(r.ms) \/ Len(r.T) /= Len(r.ms) THEN {"length"}
  ELSE UNION {OneBad(r, k) : k \in 1..Len(r.ms)}
==========================================================================
