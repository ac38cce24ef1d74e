------------------------------ MODULE Gen_C22 ------------------------------
(* Pseudo-random scenes; for line cases the open line is stepped and checked: its size does not matter, nothing
   is lost while the waves are inside, and everything has left in the end unless a closed edge keeps it. *)
EXTENDS C22, Json
CONSTANTS Lines, Boxes
VARIABLES sd, kd, i, st, big
L1(x) == (x * 1103 + 12345) % 1048576
RECURSIVE LCG(_, _)
LCG(x, k) == IF k = 0 THEN x ELSE LCG(L1(x), k - 1)
R(s, k, m) == LET a == LCG(((((s % 100000) * 7919) % 1048576) + (k * 3571) + (s \div 100000)) % 1048576, 2)
                  b == ((a \div 512) * ((a % 1021) + 1)) % 1048576
              IN (LCG(b, 2) \div 64) % m
Pick(s, k, q) == q[R(s, k, Len(q)) + 1]
Line(s) ==
  LET ax == (s % 3) + 1
      w == Pick(s, 2, <<3, 4>>)
      n == 2 * Reach(w) + 1 + R(s, 3, 10)
      f == Pick(s, 4, << <<TRUE, TRUE>>, <<TRUE, TRUE>>, <<TRUE, FALSE>>, <<FALSE, TRUE>> >>)
      q == Pick(s, 5, << <<1, 2>>, <<3, 4>>, <<9, 10>>, <<1, 1>> >>)
  IN [kind |-> "line", ax |-> ax, m |-> IF (s \div 3) % 2 = 0 THEN Nx1(ax) ELSE Nx2(ax), w |-> w, n |-> n, th |-> 9 + R(s, 6, 6),
      pos |-> Reach(w) + R(s, 7, n - 2 * Reach(w)), lo |-> f[1], hi |-> f[2], cn |-> q[1], cd |-> q[2], bg |-> Pick(s, 8, <<1, 1, 2>>),
      steps |-> 60 + 10 * R(s, 9, 7), every |-> 10]
(* shape of the inner region, faces: absorbing faces <<axis, side>>; per: periodic axes *)
Faces2(a, b) == << <<a, 0>>, <<a, 1>>, <<b, 0>>, <<b, 1>> >>
Box(s) ==
  LET flat == (s % 4)                         \* 0: three axes
      w == 3
      axes == IF flat = 0 THEN <<1, 2, 3>> ELSE <<Nx1(flat), Nx2(flat)>>
      size == [a \in 1..3 |-> IF a = flat THEN 1 ELSE 17 + R(s, 10 + a, 4)]
      drop == R(s, 20, 3)                     \* 2: one face stays closed
      all == [j \in 1..(2 * Len(axes)) |-> <<axes[(j + 1) \div 2], j % 2>>]
      miss == 1 + R(s, 21, Len(all))
  IN [kind |-> "box", flat |-> flat, w |-> w, m |-> (R(s, 22, 3)) + 1, size |-> size, th |-> 9 + R(s, 23, 3),
      faces |-> SelectSeq(all, LAMBDA f : drop # 2 \/ flat = 0 \/ f # all[miss]), pos |-> [a \in 1..3 |-> IF a = flat THEN 0 ELSE 8 + R(s, 24 + a, size[a] - 16)],
      courant |-> Pick(s, 30, <<0, 0, 5>>), bg |-> Pick(s, 31, <<1, 1, 2>>), obj |-> R(s, 32, 3) = 0 /\ flat # 0, src |-> R(s, 33, 3) = 0, steps |-> IF flat = 0 THEN 44 ELSE 60]
Case == IF kd = "line" THEN Line(sd) ELSE Box(sd)
Init == /\ \/ kd = "line" /\ sd \in Lines
           \/ kd = "box" /\ sd \in Boxes
        /\ i = 0
        /\ IF kd = "line" THEN LET c == Line(sd) IN st = Start(c, Pad(c)) /\ big = Start(c, Pad(c) + 25) ELSE st = [e |-> <<0>>, h |-> <<0>>] /\ big = st
Next == /\ kd = "line" /\ i < Line(sd).steps
        /\ LET c == Line(sd) IN st' = Adv(c, st, c.every) /\ big' = Adv(c, big, c.every) /\ i' = i + c.every
        /\ UNCHANGED <<sd, kd>>
SizeDoesNotMatter == kd = "line" => LET c == Line(sd) IN \A x \in 0..(c.n - 1) : st.e[x] = big.e[x] /\ st.h[x] = big.h[x]
RECURSIVE Sum(_, _, _)
Sum(f, a, b) == IF a > b THEN 0 ELSE f[a] + Sum(f, a + 1, b)
(* the total E is what the closed edges let through: with both sides open it stays zero *)
ZeroMean == kd = "line" => LET c == Line(sd) IN (c.lo /\ c.hi /\ i * c.cn <= (Pad(c) + 15) * c.cd) => Abs(Sum(big.e, First(c, Pad(c) + 25), Last(c, Pad(c) + 25))) <= 40 + 100 * i
Gone == kd = "line" => LET c == Line(sd) IN
  (c.lo /\ c.hi /\ c.bg = 1 /\ i * c.cn >= (c.n + 2 * Reach(c.w)) * c.cd) => \A x \in 0..(c.n - 1) : Abs(st.e[x]) <= Peak(c) \div 40 + 100
Emit == IF i = 0 THEN PrintT(ToJson(Case)) ELSE TRUE
============================================================================
