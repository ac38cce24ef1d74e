------------------------------ MODULE Gen_C14 ------------------------------
(* Pseudo-random FDTD scenes and operation histories; the machine performs the history on the
   specified grid (coarse initial fields) and the design properties are checked on every state. *)
EXTENDS C14, Json
CONSTANTS Seeds
VARIABLES sd, i, st, samples, steps

L1(x) == (x * 1103 + 12345) % 1048576
RECURSIVE LCG(_, _)
LCG(x, k) == IF k = 0 THEN x ELSE LCG(L1(x), k - 1)
R(s, k, m) == LET a == LCG(((((s % 100000) * 7919) % 1048576) + (k * 3571) + (s \div 100000)) % 1048576, 2)
                  b == ((a \div 512) * ((a % 1021) + 1)) % 1048576
              IN (LCG(b, 2) \div 64) % m
Shapes == << <<5, 1, 1>>, <<1, 6, 1>>, <<1, 1, 5>>, <<4, 3, 1>>, <<3, 1, 4>>, <<1, 4, 3>>, <<3, 3, 3>>, <<4, 2, 3>>, <<2, 3, 4>>, <<5, 3, 1>> >>
Shape(s) == Shapes[R(s, 1, Len(Shapes)) + 1]
Lo(s, k, a) == R(s, k + a, Shape(s)[a])
Hi(s, k, a) == Lo(s, k, a) + 1 + R(s, k + 3 + a, Shape(s)[a] - Lo(s, k, a))
Obj(s, k) == [lo |-> [a \in 1..3 |-> Lo(s, k, a)], hi |-> [a \in 1..3 |-> Hi(s, k, a)],
              eps |-> <<1, 2, 4>>[R(s, k + 7, 3) + 1], abs |-> R(s, k + 8, 4) > 0,
              kp |-> <<0, 2, 1, 3>>[R(s, k + 9, 4) + 1], kq |-> <<1, 3, 1, 2>>[R(s, k + 9, 4) + 1]]
Objs(s) == [j \in 1..R(s, 20, 4) |-> Obj(s, 20 + 20 * j)]
Perms == << <<>>, <<1>>, <<2>>, <<3>>, <<1, 2>>, <<2, 1>>, <<3, 1>>, <<2, 3>>, <<1, 2, 3>>, <<3, 2, 1>> >>
Per(s) == Perms[R(s, 120, Len(Perms)) + 1]
Sig(s, k, line) == <<"continuous", "hanning", "ricker">>[R(s, k, 3) + 1]
Ph(s, k) == R(s, k, 9) - 4
Pt(s, k) == [a \in 1..3 |-> R(s, k + a, Shape(s)[a])]
Point(s, k) ==
  LET g == Sig(s, k, FALSE) IN
  [kind |-> "point", sig |-> g, per |-> CASE g = "continuous" -> <<4, 5, 8, 15, 20, 24>>[R(s, k + 1, 6) + 1]
                                      [] g = "hanning" -> <<10, 15, 20>>[R(s, k + 1, 3) + 1] [] OTHER -> <<1, 2, 4>>[R(s, k + 1, IF R(s, 2, 3) = 2 THEN 2 ELSE 3) + 1],
   ph |-> IF g = "continuous" THEN Ph(s, k + 2) ELSE 0, amp |-> R(s, k + 3, 3) + 1, cyc |-> <<1, 2, 5>>[R(s, k + 4, 3) + 1],
   lo |-> Pt(s, k + 5), hi |-> Pt(s, k + 5), pol |-> 3, flat |-> 0, sec |-> R(s, k + 9, 2), how |-> R(s, k + 11, 2)]
(* lines along one axis or along the diagonal, 2 to 5 cells *)
LongAxes(s) == {a \in 1..3 : Shape(s)[a] >= 2}
LAxis(s, k) == CHOOSE a \in LongAxes(s) : a >= 1 /\ \A b \in LongAxes(s) : (R(s, k, 3) + a) % 3 <= (R(s, k, 3) + b) % 3
LLen(s, k) == Min2(5, 2 + R(s, k + 1, Shape(s)[LAxis(s, k)] - 1))
LStart(s, k) == R(s, k + 2, Shape(s)[LAxis(s, k)] - LLen(s, k) + 1)
Line(s, k) ==
  LET p == Point(s, k) a == LAxis(s, k + 40) IN
  [p EXCEPT !.kind = "line",
            !.lo = [p.lo EXCEPT ![a] = LStart(s, k + 40)], !.hi = [p.lo EXCEPT ![a] = LStart(s, k + 40) + LLen(s, k + 40)]]
(* lines along the exact diagonal of a cube of the grid, so that the profile stays tabulated *)
DiagAxes(s, k) == {b \in LongAxes(s) : Shape(s)[b] >= LLen(s, k)}
Diag(s, k, l) == LET a == LAxis(s, k) n == LLen(s, k) IN
  [l EXCEPT !.lo = [b \in 1..3 |-> IF b = a THEN l.lo[b] ELSE IF b \in DiagAxes(s, k) THEN R(s, k + 7 + b, Shape(s)[b] - n + 1) ELSE l.lo[b]],
            !.hi = [b \in 1..3 |-> IF b = a THEN l.hi[b] ELSE IF b \in DiagAxes(s, k) THEN R(s, k + 7 + b, Shape(s)[b] - n + 1) + n ELSE l.lo[b]]]
Planar(s) == {<<f, q>> \in (1..3) \X (1..3) : f /= q /\ \A a \in (1..3) \ {f} : Shape(s)[a] >= 2}
Plane(s, k) ==
  LET p == Point(s, k) w == CHOOSE v \in Planar(s) : \A u \in Planar(s) : (R(s, k, 9) + 3 * v[1] + v[2]) % 9 <= (R(s, k, 9) + 3 * u[1] + u[2]) % 9 IN
  [p EXCEPT !.kind = "plane", !.sig = "continuous", !.per = <<4, 8, 15>>[R(s, k + 1, 3) + 1], !.flat = w[1], !.pol = w[2], !.ph = Ph(s, k + 2),
            !.lo = [a \in 1..3 |-> IF a = w[1] THEN p.lo[a] ELSE 0],
            !.hi = [a \in 1..3 |-> IF a = w[1] THEN p.lo[a] + 1 ELSE Shape(s)[a]]]
Source(s, k) == LET t == R(s, k, 6) IN
  IF t = 5 /\ Planar(s) /= {} THEN Plane(s, k) ELSE IF t \in {2, 3} THEN Line(s, k) ELSE IF t = 4 THEN Diag(s, k + 40, Line(s, k)) ELSE Point(s, k)
Srcs(s) == [j \in 1..R(s, 130, 4) |-> Source(s, 130 + 60 * j)]
(* detectors span the diagonal of any box; those of a single cell are placed by their indices *)
DetBox(s, k) == LET a == LAxis(s, k) p == Pt(s, k + 4) IN
  [lo |-> [p EXCEPT ![a] = LStart(s, k)],
   hi |-> [b \in 1..3 |-> IF b = a THEN LStart(s, k) + LLen(s, k)
                           ELSE IF R(s, k + 11, 2) = 0 THEN p[b] + R(s, k + 12 + b, Min2(LLen(s, k), Shape(s)[b] - p[b]) + 1) ELSE p[b]]]
DetSpec(s, k) == IF R(s, k, 3) = 0 THEN [lo |-> Pt(s, k + 9), hi |-> Pt(s, k + 9), box |-> FALSE]
                 ELSE LET d == DetBox(s, k + 20) IN [lo |-> d.lo, hi |-> d.hi, box |-> R(s, k + 35, 3) > 0]
DetCells(d) == IF d.lo = d.hi THEN <<d.lo>> ELSE LineCells(d)
DetSpecs(s) == [j \in 1..R(s, 400, 3) |-> DetSpec(s, 400 + 40 * j)]
Dets(s) == [j \in 1..Len(DetSpecs(s)) |-> DetCells(DetSpecs(s)[j])]
F0(s, k) == [x \in 1..Shape(s)[1] |-> [y \in 1..Shape(s)[2] |-> [z \in 1..Shape(s)[3] |->
              [m \in 1..3 |-> R(s, k + 97 * x + 31 * y + 7 * z + m, 33) - 16]]]]
Ops == <<"step", "run", "step", "reset", "step", "run">>
Script(s) == [j \in 1..(3 + R(s, 600, 4)) |->
   LET o == Ops[R(s, 600 + j, 6) + 1] IN [op |-> o, n |-> IF o = "reset" THEN 0 ELSE IF o = "step" THEN 1 ELSE R(s, 650 + j, 4), sec |-> R(s, 680 + j, 2) = 0]]
Case(s) == [shape |-> Shape(s), cn |-> 1, cd |-> <<2, 2, 4>>[R(s, 2, 3) + 1], mu |-> 1 + R(s, 3, 2), bg |-> <<1, 1, 2>>[R(s, 4, 3) + 1],
            objs |-> Objs(s), per |-> Per(s), srcs |-> Srcs(s), dets |-> Dets(s), dspec |-> DetSpecs(s), script |-> Script(s), durs |-> [j \in 1..4 |-> 1 + R(s, 700 + j, 99)],
            E0 |-> F0(s, 1000), H0 |-> F0(s, 2000), seed |-> s]
Scale(c, F) == Arr(c, LAMBDA p, k : At(F, p, k) * (SC \div 16))

Init == /\ sd \in Seeds /\ i = 1 /\ samples = 0 /\ steps = 0
        /\ LET c == Case(sd) IN st = [E |-> Scale(c, c.E0), H |-> Scale(c, c.H0), t |-> 0]
RECURSIVE Adv(_, _, _, _)
Adv(c, m, s, n) == IF n = 0 THEN s ELSE Adv(c, m, TLCEval(Step(c, m, s)), n - 1)
Next == /\ i <= Len(Script(sd))
        /\ LET c == TLCEval(Case(sd)) o == c.script[i] m == TLCEval(Mat(c)) IN
           /\ st' = IF o.op = "reset" THEN Reset(c) ELSE Adv(c, m, st, o.n)
           /\ steps' = IF o.op = "reset" THEN 0 ELSE steps + o.n
           /\ samples' = samples + o.n
        /\ i' = i + 1 /\ UNCHANGED sd
Counter == st.t = steps
RECURSIVE Total(_, _)
Total(s, j) == IF j = 0 THEN 0 ELSE s[j].n + Total(s, j - 1)
OneSamplePerStep == samples = Total(Script(sd), i - 1)
(* the curl of any field has no divergence: H keeps its magnetic flux, E its charge *)
DivFree == LET c == TLCEval(Case(sd)) K == TLCEval(Arr(c, LAMBDA p, k : CurlE(c, st.E, p, k))) IN
  \A p \in Cells(c) : (\A a \in 1..3 : p[a] < c.shape[a] - 1) =>
     (DF(c, K, p, 1, 1) + DF(c, K, p, 2, 2) + DF(c, K, p, 3, 3) = 0)
       \/ \E a \in 1..3 : p[a] = c.shape[a] - 2
ResetState == (i > 1 /\ Script(sd)[i - 1].op = "reset") => st.t = 0 /\ \A p \in Cells(Case(sd)) : At(st.E, p, 1) = 0
Emit == IF i = 1 THEN PrintT(ToJson(Case(sd))) ELSE TRUE
============================================================================
