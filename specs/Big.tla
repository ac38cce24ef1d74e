-------------------------------- MODULE Big --------------------------------
(* Exact integers of any size and Gaussian integers, in plain TLA+ (TLC's integers have 32 bits).
   A natural number is a little-endian sequence of limbs in base 1000 without leading zeros
   (<<>> is 0); an integer is a record [s |-> 1 or -1, m |-> natural]; a Gaussian integer is
   [re |-> integer, im |-> integer]. *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
BASE == 1000

RECURSIVE NStrip(_)
NStrip(a) == IF a = <<>> THEN <<>> ELSE IF a[Len(a)] = 0 THEN NStrip(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE NCarry(_, _, _)
(* a: columns (any non-negative 32 bit values), i: position, c: carry *)
NCarry(a, i, c) ==
  IF i > Len(a) THEN IF c = 0 THEN <<>> ELSE <<c % BASE>> \o NCarry(a, i, c \div BASE)
  ELSE LET t == a[i] + c IN <<t % BASE>> \o NCarry(a, i + 1, t \div BASE)

Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
NMax(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
NAdd(a, b) == NStrip(NCarry([i \in 1..NMax(a, b) |-> Limb(a, i) + Limb(b, i)], 1, 0))

RECURSIVE NBorrow(_, _, _, _)
NBorrow(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET t == a[i] - Limb(b, i) - c IN
       IF t < 0 THEN <<t + BASE>> \o NBorrow(a, b, i + 1, 1) ELSE <<t>> \o NBorrow(a, b, i + 1, 0)
NSub(a, b) == NStrip(NBorrow(a, b, 1, 0))          \* needs a >= b

RECURSIVE NCmpAt(_, _, _)
NCmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE NCmpAt(a, b, i - 1)
NCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE NCmpAt(a, b, Len(a))

RECURSIVE NCol(_, _, _, _)
NCol(a, b, k, i) ==           \* sum of a[i] * b[k + 1 - i] over i.., both 1-based, column k
  IF i > Len(a) \/ i > k THEN 0
  ELSE (IF k + 1 - i <= Len(b) THEN a[i] * b[k + 1 - i] ELSE 0) + NCol(a, b, k, i + 1)
NMul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE NStrip(NCarry([k \in 1..(Len(a) + Len(b) - 1) |-> NCol(a, b, k, 1)], 1, 0))

RECURSIVE NDigits(_)
NDigits(n) == IF n = 0 THEN <<>> ELSE <<n % BASE>> \o NDigits(n \div BASE)

BInt(n) == IF n < 0 THEN [s |-> -1, m |-> NDigits(-n)] ELSE [s |-> 1, m |-> NDigits(n)]
BNorm(s, m) == [s |-> IF m = <<>> THEN 1 ELSE s, m |-> m]
BNeg(a) == BNorm(-a.s, a.m)
BAdd(a, b) ==
  IF a.s = b.s THEN [s |-> a.s, m |-> NAdd(a.m, b.m)]
  ELSE IF NCmp(a.m, b.m) >= 0 THEN BNorm(a.s, NSub(a.m, b.m)) ELSE BNorm(b.s, NSub(b.m, a.m))
BSub(a, b) == BAdd(a, BNeg(b))
BMul(a, b) == BNorm(a.s * b.s, NMul(a.m, b.m))
BZero == [s |-> 1, m |-> <<>>]
BEq(a, b) == a = b

CInt(x, y) == [re |-> BInt(x), im |-> BInt(y)]
CAdd(a, b) == [re |-> BAdd(a.re, b.re), im |-> BAdd(a.im, b.im)]
CSub(a, b) == [re |-> BSub(a.re, b.re), im |-> BSub(a.im, b.im)]
CMul(a, b) == [re |-> BSub(BMul(a.re, b.re), BMul(a.im, b.im)), im |-> BAdd(BMul(a.re, b.im), BMul(a.im, b.re))]
CConj(a) == [re |-> a.re, im |-> BNeg(a.im)]
CAbs2(a) == BAdd(BMul(a.re, a.re), BMul(a.im, a.im))

RECURSIVE NDigit(_, _)
NDigit(n, d) == IF NCmp(n, d) < 0 THEN 0 ELSE 1 + NDigit(NSub(n, d), d)
RECURSIVE NRatio(_, _, _, _)
(* acc * 10^k + the first k decimal digits of n/d; n/d must be small *)
NRatio(n, d, k, acc) ==
  LET q == NDigit(n, d)
      r == IF q = 0 THEN n ELSE NSub(n, NMul(<<q>>, d)) IN
  IF k = 0 THEN acc * 10 + q ELSE NRatio(NMul(<<10>>, r), d, k - 1, acc * 10 + q)
(* floor(10^k * a/b) for 0 <= a/b < 1000 *)
BRatio(a, b, k) == NRatio(a.m, b.m, k, 0)
=============================================================================
