-------------------------------- MODULE Fix9 --------------------------------
(* Real and complex fixed-point arithmetic with nine decimals on top of Big: the number x is the
   integer x * 10^9 (three limbs).  Enough precision for wave optics: transfer matrices, sine,
   cosine, exponential, square root. *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE Big
LOCAL INSTANCE TLC

Drop3(m) == IF Len(m) <= 3 THEN <<>> ELSE SubSeq(m, 4, Len(m))
FOne == [s |-> 1, m |-> <<0, 0, 0, 1>>]
FZero == BZero
FInt(n) == BMul(BInt(n), FOne)
FNano(n) == BInt(n)                       \* n * 10^-9
FMul(a, b) == LET p == BMul(a, b) IN BNorm(p.s, Drop3(p.m))
FAdd(a, b) == BAdd(a, b)
FSub(a, b) == BSub(a, b)
FNeg(a) == BNeg(a)
(* a / n for a small positive integer *)
RECURSIVE SDiv(_, _, _, _)
SDiv(m, n, i, r) == IF i = 0 THEN <<>> ELSE LET t == r * 1000 + m[i] IN SDiv(m, n, i - 1, t % n) \o <<t \div n>>
FDivI(a, n) == BNorm(a.s, NStrip(SDiv(a.m, n, Len(a.m), 0)))      \* n < 2 * 10^6
FLess(a, b) == BSub(a, b).s = -1
FRat(p, q) == FDivI(FInt(p), q)                                    \* p/q, 0 < q < 2 * 10^6
(* quotient of two numbers, |a/b| < 2 *)
FDiv(a, b) == BNorm(a.s * b.s, NDigits(BRatio([s |-> 1, m |-> a.m], [s |-> 1, m |-> b.m], 9)))
(* rounded to k <= 9 decimals as a TLC integer; |a| * 10^k < 2 * 10^9 *)
RECURSIVE NVal(_, _)
NVal(m, i) == IF i > Len(m) THEN 0 ELSE m[i] + 1000 * NVal(m, i + 1)
FVal(a, k) == LET d == CASE k = 9 -> 1 [] k = 6 -> 1000 [] k = 4 -> 100000 [] k = 3 -> 1000000
              IN a.s * NVal(NStrip(SDiv(a.m, d, Len(a.m), 0)), 1)

(* x / 2^j by repeated halving, Taylor series *)
RECURSIVE Horner(_, _, _, _)
(* 1 + s*y/(q(1)) * (1 + s*y/q(2) * (...)) with q(i) = (2i+o-1)(2i+o) *)
Horner(y, i, n, o) == IF i > n THEN FOne
                      ELSE FSub(FOne, FDivI(FMul(y, Horner(y, i + 1, n, o)), (2 * i + o - 1) * (2 * i + o)))
Sin0(x) == FMul(x, Horner(FMul(x, x), 1, 9, 1))       \* |x| <= 2
Cos0(x) == Horner(FMul(x, x), 1, 9, 0)
PI9 == FAdd(FInt(3), FNano(141592654))
TwoPI == FAdd(FInt(6), FNano(283185307))
(* [c, s] of an angle of any size, by halving until it is at most one *)
RECURSIVE Trig(_)
Trig(x) ==
  IF FLess(x, FZero) THEN LET t == Trig(FNeg(x)) IN [c |-> t.c, s |-> FNeg(t.s)]
  ELSE IF ~FLess(FInt(2), x) THEN TLCEval([c |-> Cos0(x), s |-> Sin0(x)])
  ELSE LET t == TLCEval(Trig(FDivI(x, 2)))
           sc == FMul(t.s, t.c)
       IN [c |-> FSub(FOne, FMul(FInt(2), FMul(t.s, t.s))), s |-> FAdd(sc, sc)]
RECURSIVE ExpH(_, _)
ExpH(x, i) == IF i > 14 THEN FOne ELSE FAdd(FOne, FDivI(FMul(x, ExpH(x, i + 1)), i))
RECURSIVE FExp(_)
FExp(x) == IF FLess(FOne, x) \/ FLess(x, FInt(-1)) THEN LET t == TLCEval(FExp(FDivI(x, 2))) IN FMul(t, t) ELSE ExpH(x, 1)
RECURSIVE Newton(_, _, _)
Newton(v, y, n) == IF n = 0 THEN y ELSE Newton(v, TLCEval(FDivI(FAdd(y, FDiv(v, y)), 2)), n - 1)
FSqrt(v) == Newton(v, FOne, 7)                        \* 0.05 < v < 2

(* ------------------------------------------------------------- complex *)
C(re, im) == [re |-> re, im |-> im]
COne == C(FOne, FZero)
CZero == C(FZero, FZero)
ZAdd(a, b) == C(FAdd(a.re, b.re), FAdd(a.im, b.im))
ZSub(a, b) == C(FSub(a.re, b.re), FSub(a.im, b.im))
ZMul(a, b) == C(FSub(FMul(a.re, b.re), FMul(a.im, b.im)), FAdd(FMul(a.re, b.im), FMul(a.im, b.re)))
ZConj(a) == C(a.re, FNeg(a.im))
ZScale(r, a) == C(FMul(r, a.re), FMul(r, a.im))
ZAbs2(a) == FAdd(FMul(a.re, a.re), FMul(a.im, a.im))
(* cos and sin of a complex angle x + iy *)
ZTrig(a) ==
  LET t == TLCEval(Trig(a.re))
      e == TLCEval(FExp(a.im))
      i == TLCEval(FExp(FNeg(a.im)))
      ch == FDivI(FAdd(e, i), 2)
      sh == FDivI(FSub(e, i), 2)
  IN [c |-> C(FMul(t.c, ch), FNeg(FMul(t.s, sh))), s |-> C(FMul(t.s, ch), FMul(t.c, sh))]
(* ratio of two non-negative numbers below 2, in units of 10^-k, k <= 9 *)
FRatio(a, b, k) == BRatio([s |-> 1, m |-> a.m], [s |-> 1, m |-> b.m], k)
=============================================================================
