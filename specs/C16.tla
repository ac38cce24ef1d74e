------------------------------- MODULE C16 -------------------------------
(* Transmission and reflection coefficients from the detector signals of the free-space run and
   the material run.  Signals are sequences of integers, w is the window size. *)
EXTENDS Num, FiniteSets, TLC

NonZero(s) == {i \in 1..Len(s) : s[i] /= 0}
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
DropZeros(s) == IF NonZero(s) = {} THEN s ELSE SubSeq(s, SetMin(NonZero(s)), Len(s))

(* windows of w samples, the last two merged *)
NChunks(n, w) == ((n + w - 1) \div w) - 1
Chunk(s, w, k) == IF k < NChunks(Len(s), w) THEN SubSeq(s, (k - 1) * w + 1, k * w) ELSE SubSeq(s, (k - 1) * w + 1, Len(s))
Range(s) == MaxSeq(s) - MinSeq(s)
Changes(s, w) == [k \in 1..(NChunks(Len(s), w) - 1) |-> Abs(Range(Chunk(s, w, k)) - Range(Chunk(s, w, k + 1)))]
(* last window whose change is at least num/den of the largest change *)
LastChange(ch, num, den) ==
  LET m == MaxSeq(ch) IN
  IF m = 0 THEN Len(ch) ELSE SetMax({k \in 1..Len(ch) : den * ch[k] >= num * m})
Short(s, w) == Len(s) <= 2 * w
Steady(s0, w, num, den) ==
  LET s == DropZeros(s0) IN
  IF Short(s, w) THEN s
  ELSE SubSeq(s, LastChange(Changes(s, w), num, den) * w + 1, Len(s))
(* a window change so close to the threshold that rounding decides *)
Borderline(s0, w, num, den) ==
  LET s == DropZeros(s0) IN
  ~Short(s, w) /\ LET ch == Changes(s, w) m == MaxSeq(ch) IN m > 0 /\ \E k \in 1..Len(ch) : den * ch[k] = num * m

Peaks(s) == {i \in 2..(Len(s) - 1) : s[i] > s[i - 1] /\ s[i] > s[i + 1]}
RECURSIVE SumSq(_, _, _)
SumSq(s, i, j) == IF i > j THEN 0 ELSE s[i] * s[i] + SumSq(s, i + 1, j)
(* intensity as <<numerator, denominator>> *)
Intensity(s) ==
  LET p == Peaks(s) IN
  IF Cardinality(p) > 1 THEN << SumSq(s, SetMin(p), SetMax(p) - 1), SetMax(p) - SetMin(p) >>
  ELSE << MaxSeq(s) * MaxSeq(s), 2 >>

Diff(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
Rat(x, y) == LET n == x[1] * y[2] d == x[2] * y[1] g == Gcd(n, d) IN << n \div g, d \div g >>
Cut(c) == [tf |-> Steady(c.tf, c.w, 1, 2), tm |-> Steady(c.tm, c.w, 1, 10),
           rf |-> Steady(c.rf, c.w, 1, 2), rt |-> Steady(Diff(c.rm, c.rf), c.w, 1, 10)]
Dark(c) == NonZero(c.tf) = {} \/ NonZero(c.rf) = {}
Unsure(c) == \/ Borderline(c.tf, c.w, 1, 2) \/ Borderline(c.tm, c.w, 1, 10)
             \/ Borderline(c.rf, c.w, 1, 2) \/ Borderline(Diff(c.rm, c.rf), c.w, 1, 10)

(* ------------------------------------------------------------ conformance
   r: w, the signals, out, T, R (unit 10^-5), and the same for scaled signals *)
Unit == 100000
Value(x) == Fix(x[1], x[2], 5)
Tol(v) == 2 + v \div 50000
Expected(c) ==
  LET q == Cut(c)
      it == Intensity(q.tm) ft == Intensity(q.tf)
      ir == Intensity(q.rt) fr == Intensity(q.rf)
  IN [defined |-> ft[1] /= 0 /\ fr[1] /= 0,
      T |-> IF ft[1] = 0 THEN <<0, 1>> ELSE Rat(it, ft),
      R |-> IF fr[1] = 0 THEN <<0, 1>> ELSE Rat(ir, fr)]
Small(x) == x[1] < 200000 /\ x[2] < 200000 /\ x[1] \div x[2] < 2000
NormBad(r, e) ==
  LET t == Value(e.T) u == Value(e.R) s == t + u IN
  IF s > Unit + 5 /\ s < 105000 - 5
  THEN (* divided by the sum *)
       {c \in {"T normalised", "R normalised"} :
          IF c = "T normalised" THEN ~Near(r.T, Fix(t, s, 5), 12) ELSE ~Near(r.R, Fix(u, s, 5), 12)}
  ELSE IF Abs(s - Unit) <= 5 \/ Abs(s - 105000) <= 5 THEN {}
  ELSE {c \in {"T", "R"} : IF c = "T" THEN ~Near(r.T, t, Tol(t)) ELSE ~Near(r.R, u, Tol(u))}
Bad(r) ==
  IF Dark(r) THEN (IF r.out = "ValueError" THEN {} ELSE {"all-zero signal accepted"})
  ELSE IF r.out /= "ok" THEN {"raised"}
  ELSE IF Unsure(r) THEN {}
  ELSE LET e == Expected(r) IN
       IF ~e.defined \/ ~Small(e.T) \/ ~Small(e.R) THEN {}
       ELSE NormBad(r, e)
            \cup (IF Near(r.sT, r.T, Tol(r.T)) /\ Near(r.sR, r.R, Tol(r.R)) THEN {} ELSE {"scaling"})
==========================================================================
