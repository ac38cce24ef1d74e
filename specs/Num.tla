------------------------------- MODULE Num -------------------------------
(* Small exact-arithmetic helpers. TLC integers are 32 bit, so rationals are kept as
   <<numerator, denominator>> with small components, and ratios are turned into
   fixed-point integers by digit-by-digit long division. *)
EXTENDS Integers, Sequences

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a

RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)

RECURSIVE LongDiv(_, _, _)
(* digits of n/d: returns floor(n/d) * 10^k + ... ; needs 0 <= n, 0 < d < 2^31/10 *)
LongDiv(n, d, k) ==
  IF k = 0 THEN n \div d
  ELSE (n \div d) * Pow(10, k) + LongDiv((n % d) * 10, d, k - 1)

(* n/d in units of 10^-k, rounded towards zero *)
Fix(n, d, k) == IF n >= 0 THEN LongDiv(n, d, k) ELSE -LongDiv(-n, d, k)

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

RECURSIVE MaxSeq(_)
MaxSeq(s) == IF Len(s) = 1 THEN s[1] ELSE Max2(s[1], MaxSeq(Tail(s)))
RECURSIVE MinSeq(_)
MinSeq(s) == IF Len(s) = 1 THEN s[1] ELSE Min2(s[1], MinSeq(Tail(s)))

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % b)

(* no overflow for values and tolerances within +-2*10^9 / 10^9; the NaN code is near nothing *)
Near(a, b, tol) == Abs(a) < 2000000000 /\ Abs(b) < 2000000000 /\
                   IF (a >= 0) = (b >= 0) THEN Abs(a - b) <= tol ELSE Abs(a) <= tol /\ Abs(b) <= tol /\ Abs(a - b) <= tol
NaN == 2000000000
IsNum(a) == Abs(a) < NaN
===========================================================================
