------------------------------ MODULE ThinFilm ------------------------------
(* Exact thin-film optics at normal incidence by the transfer-matrix method, over Gaussian
   integers.  A layer is a record with
     a, b, D     refractive index (a + i b) / D
     c, ci, s, si, h   cosine (c + i ci)/h and sine (s + i si)/h of its complex phase
   i.e. [cos, -i sin/n; -i n sin, cos] is its transfer matrix for (E, H). *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE Big

(* cosine / sine of m times the phase, as [c, s : Gaussian integer, h : integer] *)
RECURSIVE Multiple(_, _)
Multiple(p, m) ==
  IF m = 0 THEN [c |-> CInt(1, 0), s |-> CInt(0, 0), h |-> BInt(1)]
  ELSE LET q == Multiple(p, m - 1) IN
       [c |-> CSub(CMul(q.c, p.c), CMul(q.s, p.s)),
        s |-> CAdd(CMul(q.s, p.c), CMul(q.c, p.s)),
        h |-> BMul(q.h, p.h)]
PhaseOf(l) == [c |-> CInt(l.c, l.ci), s |-> CInt(l.s, l.si), h |-> BInt(l.h)]

MinusI == CInt(0, -1)
Real(b) == [re |-> b, im |-> BZero]
(* matrix of a layer whose phase is m times its base phase, times scale = h * D * |a+ib|^2 *)
LayerMatrix(l, m) ==
  LET p == Multiple(PhaseOf(l), m)
      n == CInt(l.a, l.b)
      n2 == Real(CAbs2(n))
      D == CInt(l.D, 0)
      d == CMul(CMul(p.c, D), n2)
  IN [m11 |-> d, m22 |-> d,
      m12 |-> CMul(MinusI, CMul(p.s, CMul(CMul(D, D), CConj(n)))),
      m21 |-> CMul(MinusI, CMul(CMul(p.s, n2), n)),
      sc  |-> BMul(p.h, BMul(BInt(l.D), CAbs2(n)))]

MatMul(x, y) ==
  [m11 |-> CAdd(CMul(x.m11, y.m11), CMul(x.m12, y.m21)),
   m12 |-> CAdd(CMul(x.m11, y.m12), CMul(x.m12, y.m22)),
   m21 |-> CAdd(CMul(x.m21, y.m11), CMul(x.m22, y.m21)),
   m22 |-> CAdd(CMul(x.m21, y.m12), CMul(x.m22, y.m22)),
   sc |-> BMul(x.sc, y.sc)]
RECURSIVE Stack(_, _)
Stack(ls, m) ==
  IF ls = <<>> THEN [m11 |-> CInt(1, 0), m12 |-> CInt(0, 0), m21 |-> CInt(0, 0), m22 |-> CInt(1, 0), sc |-> BInt(1)]
  ELSE MatMul(LayerMatrix(ls[1], m), Stack(Tail(ls), m))

(* top: real index tn/td.  bottom: index (ba + i bb)/bd.  Result: numerators of R and T and
   their common denominator (exact). *)
RTof(M, top, bot) ==
  LET ns == CInt(bot.a, bot.b)
      bd == CInt(bot.D, 0)
      B == CAdd(CMul(M.m11, bd), CMul(M.m12, ns))          \* times bot.D
      C == CAdd(CMul(M.m21, bd), CMul(M.m22, ns))
      n0B == CMul(CInt(top.a, 0), B)
      C0 == CMul(CInt(top.D, 0), C)
      num == CAbs2(CSub(n0B, C0))
      den == CAbs2(CAdd(n0B, C0))
      (* T = 4 n0 Re(ns) scale^2 / |n0 B + C|^2, everything over top.D and bot.D *)
      t == BMul(BMul(BMul(BInt(4 * top.a * bot.a), M.sc), M.sc), BInt(top.D * bot.D))
  IN [R |-> num, T |-> t, den |-> den]
=============================================================================
