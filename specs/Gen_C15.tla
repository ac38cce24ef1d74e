------------------------------ MODULE Gen_C15 ------------------------------
(* Pseudo-random valid configurations.  The machine builds the scene piece by piece; the layout
   rules hold in every state. *)
EXTENDS C15, Json
CONSTANTS Seeds, Kind
VARIABLES sd, placed, owner
L1(x) == (x * 1103 + 12345) % 1048576
RECURSIVE LCG(_, _)
LCG(x, k) == IF k = 0 THEN x ELSE LCG(L1(x), k - 1)
R(s, k, m) == LET a == LCG(((((s % 100000) * 7919) % 1048576) + (k * 3571) + (s \div 100000)) % 1048576, 2)
                  b == ((a \div 512) * ((a % 1021) + 1)) % 1048576
              IN (LCG(b, 2) \div 64) % m
Pick(s, k, q) == q[R(s, k, Len(q)) + 1]
(* lengths: eighths of a micrometre, or odd multiples of 7 nm, or tenths *)
Len_(s, k, lo, hi) ==
  LET v == lo + R(s, k, hi - lo + 1) IN      \* nm
  CASE R(s, 1, 3) = 0 -> ((v + 124) \div 125) * 125 [] R(s, 1, 3) = 1 -> ((v + 6) \div 7) * 7 [] OTHER -> ((v + 99) \div 100) * 100
NL(s) == IF Kind = "run" THEN 1 + R(s, 2, 3) ELSE IF R(s, 17, 8) = 0 THEN 5 + R(s, 2, 4) ELSE 1 + R(s, 2, 4)
Eps(s, k) == <<Pick(s, k, <<10, 15, 22, 40, 64, 90, 123, -30, -155>>), Pick(s, k + 1, <<0, 0, 1, 3, 10, 35, 350, 900>>)>>
EpsRun(s, k) == <<Pick(s, k, <<15, 22, 40, 64>>), Pick(s, k + 1, <<0, 1, 3, 10>>)>>
Base(s) ==
  LET nl == NL(s)
      lmin == Pick(s, 3, <<400, 500, 640, 700, 999, 1000, 1300, 2000>>)
      lmax == lmin + 50 + R(s, 4, 1000)
      scl == IF Kind = "run" THEN Pick(s, 5, <<10, 12, 16>>) ELSE IF R(s, 18, 16) = 0 THEN Pick(s, 5, <<64, 80, 100>>) ELSE Pick(s, 5, <<3, 7, 10, 16, 20, 25, 32>>)
      one == R(s, 6, 3) = 0
      th == [i \in 1..(IF one THEN 1 ELSE nl) |-> IF R(s, 19, 5) = 0 /\ Kind # "run" /\ R(s, 90 + i, 2) = 0 THEN 3 + R(s, 20 + i, 90) ELSE Len_(s, 20 + i, 130, IF Kind = "run" THEN 500 ELSE 900)]
  IN [pml |-> Len_(s, 7, 400, 1200), free |-> Len_(s, 8, 450, 1500), thick |-> th, nl |-> nl,
      lmin |-> lmin, lmax |-> lmax, wl |-> Pick(s, 9, <<lmin, lmax, (lmin + lmax) \div 2>>),
      minpts |-> scl, nf |-> IF Kind = "run" THEN 1 + R(s, 10, 2) ELSE 1,
      source |-> Pick(s, 11, <<"line", "point">>), pulse |-> Pick(s, 12, <<"continuous", "continuous", "ricker", "hanning">>),
      srcx |-> 0, srcy |-> Len_(s, 13, 30, 1400), det |-> 1, niter |-> 0,
      eps |-> [f \in 1..2 |-> [i \in 1..nl |-> IF Kind = "run" THEN EpsRun(s, 30 + 20 * f + 3 * i) ELSE Eps(s, 30 + 20 * f + 3 * i)]]]
Case(s) ==
  LET b == Base(s)
      free == Cell(b, b.free)
      c1 == [b EXCEPT !.srcx = Len_(s, 14, b.pml, b.pml + b.free \div 2), !.det = 1 + R(s, 15, Max2(1, Min2(free, 6)))]
  IN [c1 EXCEPT !.niter = IF Kind = "run" THEN ((Cell(c1, Total(c1)) * 17) \div 10) + 20 + R(s, 16, 20) ELSE 1]
Valid(c) == /\ Cell(c, c.free) >= c.det /\ Cell(c, c.pml) >= 1 /\ c.lmin < c.lmax
            /\ \A w \in {c.wl, c.lmin, c.lmax} : ~Ambiguous(c, w)
            /\ Sn(c) <= 10000 /\ Cell(c, c.srcx) < Cell(c, Total(c))
            /\ (Kind = "run" => Cell(c, Total(c)) <= 90)

Cols(c) == 0..(Cell(c, Total(c)) - 1)
Init == /\ sd \in {s \in Seeds : Valid(Case(s))}
        /\ placed = 0
        /\ owner = [x \in Cols(Case(sd)) |-> 0]
Next == LET c == Case(sd) IN
        /\ placed < c.nl
        /\ placed' = placed + 1
        /\ owner' = [x \in Cols(c) |-> IF Cell(c, Start(c, placed + 1)) <= x /\ x < Cell(c, End(c, placed + 1)) THEN placed + 1 ELSE owner[x]]
        /\ UNCHANGED sd
(* layout rules *)
NoOverwrite == \A x \in DOMAIN owner : owner[x] > 0 => owner[x] \in 1..placed /\ LayerAt(Case(sd), x) = {owner[x]}
Contiguous == LET c == Case(sd) IN
  \A x \in DOMAIN owner : (x >= Cell(c, Surface(c)) /\ x < Cell(c, Surface(c) + Depth(c, placed))) <=> owner[x] > 0
FreeAround == LET c == Case(sd) IN
  /\ RDet(c) >= PmlCells(c) /\ RDet(c) < Cell(c, Surface(c))
  /\ TDet(c) >= Cell(c, End(c, c.nl)) /\ TDet(c) <= Cell(c, Total(c)) - PmlCells(c)
  /\ owner[RDet(c)] = 0
Stable == LET c == Case(sd) IN Sn(c) >= c.minpts * Sd(c) /\ c.lmin * Sn(c) >= 10000 * Sd(c)
Emit == IF placed = 0 THEN PrintT(ToJson(Case(sd))) ELSE TRUE
============================================================================
