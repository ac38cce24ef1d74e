-------------------------------- MODULE C14 --------------------------------
(* The FDTD grid: one time step of the discretised Maxwell equations, boundaries, sources and
   detectors.  Fields are integers in units of 2^-18, F[x+1][y+1][z+1][k] with k = 1, 2, 3.
   c (configuration): shape, cn/cd (courant number), mu, bg (background permittivity),
     objs: [lo, hi (exclusive), eps, abs, kp, kq]  (absorption factor f = kp/kq / permittivity),
     per: periodic axes in order of registration,
     srcs: [kind, sig, per, ph, amp, lo, hi, pol, flat], dets: sequences of cells. *)
EXTENDS Num, TLC, FiniteSets
SC == 262144
Cl(ok, name) == IF ok THEN {} ELSE {name}

(* sin(2 pi i / 120) in units of 10^-6 for the first quarter *)
SinQ == <<0, 52336, 104528, 156434, 207912, 258819, 309017, 358368, 406737, 453990, 500000, 544639, 587785,
          629320, 669131, 707107, 743145, 777146, 809017, 838671, 866025, 891007, 913545, 933580, 951057, 965926,
          978148, 987688, 994522, 998630, 1000000>>
Sin120(i0) == LET i == i0 % 120 IN
              CASE i <= 30 -> SinQ[i + 1] [] i <= 60 -> SinQ[61 - i]
                [] i <= 90 -> -SinQ[i - 59] [] OTHER -> -SinQ[121 - i]
Cos120(i) == Sin120(i + 30)
(* ricker wavelet (1 - 2 v) exp(-v), v = (pi u)^2, |u| = 0, 1/8, .. 12/8, in units of 10^-6 *)
RickQ == <<1000000, 592742, -126115, -443238, -333691, -142044, -39211, -7377, -969, -90, -6, 0, 0>>
Ricker8(u) == IF Abs(u) > 12 THEN 0 ELSE RickQ[Abs(u) + 1]
(* exp(-2 r^2) for r = 0, 1/4, 1 *)
Gauss(v, vm) == CASE v = 0 -> 1000000 [] v = vm -> 135335 [] 4 * v = vm -> 882497

(* -------------------------------------------------------------- geometry *)
Cells(c) == {<<x, y, z>> : x \in 0..(c.shape[1] - 1), y \in 0..(c.shape[2] - 1), z \in 0..(c.shape[3] - 1)}
Arr(c, Op(_, _)) == [x \in 1..c.shape[1] |-> [y \in 1..c.shape[2] |-> [z \in 1..c.shape[3] |->
                      [k \in 1..3 |-> Op(<<x - 1, y - 1, z - 1>>, k)]]]]
At(F, p, k) == F[p[1] + 1][p[2] + 1][p[3] + 1][k]
Back(p, a) == [p EXCEPT ![a] = @ - 1]
Fwd(p, a) == [p EXCEPT ![a] = @ + 1]
In(o, p) == \A a \in 1..3 : o.lo[a] <= p[a] /\ p[a] < o.hi[a]
(* material: inverse permittivity in quarters and the absorption factor P/Q of every cell and component *)
Mat0(c) == [inv |-> Arr(c, LAMBDA p, k : 4 \div c.bg), P |-> Arr(c, LAMBDA p, k : 0), Q |-> Arr(c, LAMBDA p, k : 1)]
Place(c, m, o) ==
  LET inv(p, k) == IF ~In(o, p) THEN At(m.inv, p, k)
                   ELSE IF o.hi[k] - o.lo[k] > 1 /\ p[k] = o.hi[k] - 1
                        THEN At(m.inv, [p EXCEPT ![k] = c.shape[k] - 1], k)   \* symmetric border
                        ELSE 4 \div o.eps
      hit(p) == o.abs /\ In(o, p)
      ni == TLCEval(Arr(c, inv))
  IN [inv |-> ni,
      P |-> TLCEval(Arr(c, LAMBDA p, k : IF hit(p) THEN o.kp * At(ni, p, k) ELSE At(m.P, p, k))),
      Q |-> TLCEval(Arr(c, LAMBDA p, k : IF hit(p) THEN o.kq * 4 ELSE At(m.Q, p, k)))]
RECURSIVE PlaceAll(_, _, _)
PlaceAll(c, m, i) == IF i > Len(c.objs) THEN m ELSE PlaceAll(c, Place(c, m, c.objs[i]), i + 1)
Mat(c) == PlaceAll(c, Mat0(c), 1)

(* ------------------------------------------------------------------ curl *)
Nx1(k) == (k % 3) + 1
Nx2(k) == ((k + 1) % 3) + 1
DB(F, p, a, k) == IF p[a] = 0 THEN 0 ELSE At(F, p, k) - At(F, Back(p, a), k)
DF(c, F, p, a, k) == IF p[a] = c.shape[a] - 1 THEN 0 ELSE At(F, Fwd(p, a), k) - At(F, p, k)
CurlH(H, p, k) == DB(H, p, Nx1(k), Nx2(k)) - DB(H, p, Nx2(k), Nx1(k))
CurlE(c, E, p, k) == DF(c, E, p, Nx1(k), Nx2(k)) - DF(c, E, p, Nx2(k), Nx1(k))
Rdiv(n, d) == IF n >= 0 THEN (n + d \div 2) \div d ELSE -((-n + d \div 2) \div d)

(* --------------------------------------------------------------- sources *)
Weighted(v, w) == \* v * w / 10^6
  LET g == IF v < 0 THEN -1 ELSE 1  a == Abs(v) IN g * (((a \div 1000) * w) \div 1000 + ((a % 1000) * (w \div 1000)) \div 1000)
Wave(c, s, q) ==       \* in units of 10^-6
  CASE s.sig = "continuous" -> Sin120((q * 120) \div s.per + 30 * s.ph)
    [] s.sig = "hanning" -> IF q * s.per >= 120 THEN 0      \* per: window angle per step / 3 degrees
                            ELSE Weighted(Sin120(q * s.per * s.cyc), (1000000 - Cos120(q * s.per)) \div 2)
    [] s.sig = "ricker" -> IF q >= 6 * s.per THEN 0 ELSE Ricker8((8 * q * c.cn) \div (c.cd * s.per) - 8)   \* per: grid points per wavelength
N2(p, r) == (p[1] - r[1]) * (p[1] - r[1]) + (p[2] - r[2]) * (p[2] - r[2]) + (p[3] - r[3]) * (p[3] - r[3])
Steps(o) == MaxSeq([a \in 1..3 |-> Abs(o.hi[a] - o.lo[a])])
LineCells(o) == LET m == Steps(o) IN
  [i \in 1..m |-> [a \in 1..3 |-> o.lo[a] + ((i - 1) * (o.hi[a] - o.lo[a])) \div m]]
Profile(cs, i) ==   \* in units of 10^-6
  LET L == Len(cs)
      v(j) == N2(cs[j], cs[(L \div 2) + 1])
      vm == MaxSeq([j \in 1..L |-> v(j)])
      w(j) == Gauss(v(j), vm)
  IN Fix(w(i), SumSeq([j \in 1..L |-> w(j)]), 6)
(* amplitude in halves, signals in units of 10^-6 -> fields in units of 2^-18 *)
Scaled(u) ==  \* u * 131072 / 10^6 without overflow
  LET g == IF u < 0 THEN -1 ELSE 1  v == Abs(u)
      hi == v \div 1000  lo == v % 1000
  IN g * ((hi * 131072) \div 1000 + (lo * 131072) \div 1000000)
Src(c, s, q) == Scaled(Wave(c, s, q) * s.amp)
InPlane(s, p) == \A a \in 1..3 : s.lo[a] <= p[a] /\ p[a] < s.hi[a]
HPol(s) == CASE s.pol = 1 -> (IF s.flat = 3 THEN 2 ELSE 3)
             [] s.pol = 2 -> (IF s.flat = 3 THEN 1 ELSE 3)
             [] s.pol = 3 -> (IF s.flat = 2 THEN 1 ELSE 2)
SourceE(c, E, s, q) ==
  LET v == TLCEval(Src(c, s, q))
      cs == TLCEval(IF s.kind = "line" THEN LineCells(s) ELSE <<s.lo>>)
      add(p) == CASE s.kind = "point" -> (IF p = s.lo THEN v ELSE 0)
                  [] s.kind = "line" -> SumSeq([i \in 1..Len(cs) |-> IF cs[i] = p THEN Weighted(v, Profile(cs, i)) ELSE 0])
  IN TLCEval(Arr(c, LAMBDA p, k :
       IF s.kind = "plane" THEN (IF k = s.pol /\ InPlane(s, p) THEN v ELSE At(E, p, k))
       ELSE IF k = 3 THEN At(E, p, k) + add(p) ELSE At(E, p, k)))
SourceH(c, H, s, q) ==
  IF s.kind /= "plane" THEN H
  ELSE TLCEval(Arr(c, LAMBDA p, k : IF k = HPol(s) /\ InPlane(s, p) THEN Src(c, s, q) ELSE At(H, p, k)))
RECURSIVE SourcesE(_, _, _, _)
SourcesE(c, E, i, q) == IF i > Len(c.srcs) THEN E ELSE SourcesE(c, SourceE(c, E, c.srcs[i], q), i + 1, q)
RECURSIVE SourcesH(_, _, _, _)
SourcesH(c, H, i, q) == IF i > Len(c.srcs) THEN H ELSE SourcesH(c, SourceH(c, H, c.srcs[i], q), i + 1, q)
RECURSIVE WrapE(_, _, _)
WrapE(c, E, i) ==
  IF i > Len(c.per) THEN E
  ELSE LET a == c.per[i] IN
       WrapE(c, TLCEval(Arr(c, LAMBDA p, k : At(E, IF p[a] = 0 THEN [p EXCEPT ![a] = c.shape[a] - 1] ELSE p, k))), i + 1)
RECURSIVE WrapH(_, _, _)
WrapH(c, H, i) ==
  IF i > Len(c.per) THEN H
  ELSE LET a == c.per[i] IN
       WrapH(c, TLCEval(Arr(c, LAMBDA p, k : At(H, IF p[a] = c.shape[a] - 1 THEN [p EXCEPT ![a] = 0] ELSE p, k))), i + 1)

(* ------------------------------------------------------------------ step
   state: [E, H, t]; result also carries what the detectors saw *)
Samples(c, E, H) == [d \in 1..Len(c.dets) |->
   [e |-> [i \in 1..Len(c.dets[d]) |-> [k \in 1..3 |-> At(E, c.dets[d][i], k)]],
    h |-> [i \in 1..Len(c.dets[d]) |-> [k \in 1..3 |-> At(H, c.dets[d][i], k)]]]]
Step(c, m, s) ==
  LET e(p, k) == LET P == At(m.P, p, k) Q == At(m.Q, p, k)
                 IN Rdiv(At(s.E, p, k) * (Q - P) * c.cd * 4 + c.cn * At(m.inv, p, k) * Q * CurlH(s.H, p, k),
                         c.cd * 4 * (Q + P))
      E1 == TLCEval(Arr(c, e))
      E2 == SourcesE(c, WrapE(c, E1, 1), 1, s.t)
      h(p, k) == At(s.H, p, k) - Rdiv(c.cn * CurlE(c, E2, p, k), c.cd * c.mu)
      H1 == TLCEval(Arr(c, h))
      H2 == SourcesH(c, WrapH(c, H1, 1), 1, s.t)
  IN [E |-> E2, H |-> H2, t |-> s.t + 1]
Reset(c) == [E |-> Arr(c, LAMBDA p, k : 0), H |-> Arr(c, LAMBDA p, k : 0), t |-> 0]

(* ----------------------------------------------------------- conformance
   o: case, courant (10^-6), dt_ok, frames <<[op, n, E, H, t, ns, obs]>>; obs: what the detectors
   recorded during that operation, one entry per step *)
DefaultCourant(c) == LET d == Cardinality({a \in 1..3 : c.shape[a] > 1}) IN <<990000, 700036, 571577>>[d]
Dist(c, A, B) == MaxSeq([i \in 1..(c.shape[1] * c.shape[2] * c.shape[3] * 3) |->
   LET j == i - 1 k == (j % 3) + 1 z == (j \div 3) % c.shape[3]
       y == (j \div (3 * c.shape[3])) % c.shape[2] x == j \div (3 * c.shape[3] * c.shape[2])
   IN Abs(At(A, <<x, y, z>>, k) - At(B, <<x, y, z>>, k))])
Tol(n) == CASE n = 1 -> 40 [] n = 2 -> 160 [] OTHER -> 640
SeqDist(a, b) == IF Len(a) /= Len(b) THEN NaN
   ELSE IF Len(a) = 0 THEN 0
   ELSE MaxSeq([i \in 1..Len(a) |-> MaxSeq([k \in 1..3 |-> Abs(a[i][k] - b[i][k])])])
SampleBad(c, spec, got, tol) ==
  UNION {Cl(SeqDist(spec[d].e, got[d].e) <= tol, "detector E sample")
         \cup Cl(SeqDist(spec[d].h, got[d].h) <= tol, "detector H sample") : d \in 1..Len(c.dets)}
RECURSIVE Steps2(_, _, _, _, _, _)
(* advance n steps from s, collecting violated clauses about the samples *)
Steps2(c, m, s, n, f, i) ==
  IF i > n THEN Cl(Dist(c, s.E, f.E) <= Tol(n), "E after step") \cup Cl(Dist(c, s.H, f.H) <= Tol(n), "H after step")
                \cup Cl(s.t = f.t, "step counter")
  ELSE LET s1 == TLCEval(Step(c, m, s)) IN
       (IF i > Len(f.obs) THEN {"sample missing"} ELSE SampleBad(c, Samples(c, s1.E, s1.H), f.obs[i], Tol(n)))
       \cup Steps2(c, m, s1, n, f, i + 1)
Finite(c, f) == \A p \in Cells(c) : \A k \in 1..3 : IsNum(At(f.E, p, k)) /\ IsNum(At(f.H, p, k))
FrameBad(c, m, prev, f) ==
  Cl(Finite(c, f), "finite fields") \cup
  Cl(Len(f.obs) = f.n, "one sample per step") \cup
  (IF ~Finite(c, f) THEN {} ELSE
   IF f.op = "reset"
   THEN LET z == Reset(c) IN Cl(Dist(c, z.E, f.E) = 0 /\ Dist(c, z.H, f.H) = 0, "fields after reset")
                             \cup Cl(f.t = 0, "step counter after reset")
   ELSE Steps2(c, m, [E |-> prev.E, H |-> prev.H, t |-> prev.t], f.n, f, 1))
Bad(o) ==
  LET c == o.case m == TLCEval(Mat(c)) IN
  Cl(o.outcome = "ok", "raised") \cup
  (IF o.outcome /= "ok" THEN {} ELSE
   Cl(Near(o.defcour, DefaultCourant(c), 2), "default courant number") \cup
   Cl(o.toohigh = "ValueError", "courant number above the stability limit accepted") \cup
   Cl(o.atlimit = "ok", "courant number within the stability limit rejected") \cup
   Cl(Near(o.dt, 1000000, 2), "time step") \cup
   Cl(\A q \in 1..Len(o.durs) : o.durs[q][1] = o.durs[q][2], "steps of a duration in seconds") \cup
   UNION {FrameBad(c, m, o.frames[i - 1], o.frames[i]) : i \in 2..Len(o.frames)})
============================================================================
