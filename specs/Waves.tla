------------------------------- MODULE Waves -------------------------------
(* Normal-incidence optics of a stack of uniform layers between vacua, in fixed point (Fix9).
   FilmRT: exact (continuum) transfer matrices; layers [a, b, D: index (a + ib)/D, num, den: thickness
           over wavelength].
   YeeRT:  the steady state of the Yee scheme with period P (time steps) and Courant number
           0.99/sqrt 2; layers [re, im: permittivity, cells].  kappa(x) is the discrete Helmholtz
           operator: E(x+1) = (2 + kappa(x)) E(x) - E(x-1), free space on both sides. *)
EXTENDS Fix9, Integers, Sequences, TLC

Cour == FNano(700035713)                     \* 0.99 / sqrt 2
InvC2 == FAdd(FInt(2), FNano(40608101))      \* 2 / 0.99^2
(* omega/2 = pi / P *)
Half(P) == FDivI(PI9, P)
(* per cell: kappa = (1 - 1/z) ((z - 1) + f (z + 1)) eps / courant^2, z = exp(2 i w), w = omega/2
   (1 - 1/z)(z - 1) = -4 sin^2 w,  (1 - 1/z)(z + 1) = z - 1/z = 2 i sin 2w *)
Kappa(sw, s2w, eps, f) ==
  LET g == FMul(eps, InvC2) IN
  C(FNeg(FMul(g, FMul(FInt(4), FMul(sw, sw)))), FMul(g, FMul(f, FMul(FInt(2), s2w))))
RECURSIVE YeeCells(_, _, _, _)
YeeCells(k2, E0, E1, n) ==       \* E0 = E(x+1), E1 = E(x): n steps to the left through cells with 2 + kappa = k2
  IF n = 0 THEN <<E0, E1>> ELSE YeeCells(k2, E1, TLCEval(ZSub(ZMul(k2, E1), E0)), n - 1)
RECURSIVE YeeLayers(_, _, _, _, _)
YeeLayers(ls, i, sw, s2w, E) ==
  IF i = 0 THEN E
  ELSE LET k2 == TLCEval(ZAdd(C(FInt(2), FZero), Kappa(sw, s2w, ls[i].eps, ls[i].f)))
       IN YeeLayers(ls, i - 1, sw, s2w, TLCEval(YeeCells(k2, E[1], E[2], ls[i].cells)))
(* layers: [eps (real part), f (absorption factor), cells] *)
YeeRT(ls, P) ==
  LET w == TLCEval(Trig(Half(P)))
      s2w == TLCEval(FMul(FInt(2), FMul(w.s, w.c)))
      q == TLCEval(FDiv(w.s, Cour))                      \* sin(k/2)
      ck == TLCEval(FSub(FOne, FMul(FInt(2), FMul(q, q))))
      sk == TLCEval(FMul(FInt(2), FMul(q, FSqrt(FSub(FOne, FMul(q, q))))))
      u == C(ck, sk)                                      \* exp(ik); the wave to the right is exp(-ikx)
      E == TLCEval(YeeLayers(ls, Len(ls), w.s, s2w, <<ZConj(u), COne>>))
      Eb == E[2]
      Ea == E[1]
      up == TLCEval(ZSub(Eb, ZMul(Ea, ZConj(u))))         \* incident amplitude times (u - 1/u)
      dn == TLCEval(ZSub(ZMul(Ea, u), Eb))
  IN [R |-> ZAbs2(dn), T |-> FMul(FInt(4), FMul(sk, sk)), den |-> ZAbs2(up)]

(* continuum: layers [n: complex index, ph: complex phase] *)
FilmMat(l) ==
  LET t == TLCEval(ZTrig(l.ph)) mi(z) == C(z.im, FNeg(z.re)) IN           \* -i z
  [a |-> t.c, d |-> t.c, b |-> mi(ZMul(t.s, l.ninv)), c |-> mi(ZMul(t.s, l.n))]
FilmMul(x, y) ==
  TLCEval([a |-> ZAdd(ZMul(x.a, y.a), ZMul(x.b, y.c)), b |-> ZAdd(ZMul(x.a, y.b), ZMul(x.b, y.d)),
           c |-> ZAdd(ZMul(x.c, y.a), ZMul(x.d, y.c)), d |-> ZAdd(ZMul(x.c, y.b), ZMul(x.d, y.d))])
RECURSIVE FilmStack(_)
FilmStack(ls) == IF ls = <<>> THEN [a |-> COne, b |-> CZero, c |-> CZero, d |-> COne]
                 ELSE FilmMul(FilmMat(ls[1]), FilmStack(Tail(ls)))
FilmRT(ls) ==
  LET M == FilmStack(ls)
      B == ZAdd(M.a, M.b)
      Cc == ZAdd(M.c, M.d)
  IN [R |-> ZAbs2(ZSub(B, Cc)), T |-> FInt(4), den |-> ZAbs2(ZAdd(B, Cc))]
=============================================================================
