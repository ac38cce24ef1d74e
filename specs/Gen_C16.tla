------------------------------ MODULE Gen_C16 ------------------------------
(* Generates signal quadruples - every short one over a small alphabet, and synthetic detector
   signals (silence, transient of changing amplitude, steady oscillation) - and runs the
   backward search for the last transient window step by step on the free-space signal. *)
EXTENDS C16, Json
CONSTANTS ShortLens, Alphabet, Windows, Rand, MaxLen, Seed
VARIABLES c, k, done

Lcg(x) == (x * 1103 + 12345) % 65536
RECURSIVE LcgN(_, _)
LcgN(x, n) == IF n = 0 THEN x ELSE LcgN(Lcg(x), n - 1)
Rnd(x, m) == (x \div 256) % m
Wave == << <<0, 1, 0, -1>>, <<0, 2, 3, 2, 0, -2, -3, -2>>, <<0, 3, 0, -3, 1, -1>>, <<2, 0, -2>>, <<1, 2, 3, 1, -2, -4, -1>> >>
(* silence of z samples, then a wave whose amplitude starts at a0 and settles at a1 after tr samples *)
Synth(n, x) ==
  LET z == Rnd(LcgN(x, 1), 5)
      wv == Wave[1 + Rnd(LcgN(x, 2), Len(Wave))]
      a0 == Rnd(LcgN(x, 3), 4)
      a1 == 1 + Rnd(LcgN(x, 4), 4)
      tr == Rnd(LcgN(x, 5), 1 + n \div 2)
  IN [i \in 1..n |-> IF i <= z THEN 0 ELSE (IF i <= z + tr THEN a0 ELSE a1) * wv[1 + ((i - z - 1) % Len(wv))]]
RandomCase(i) ==
  LET x == LcgN((Seed * 7919 + i * 131) % 65536, 5)
      n == 2 + Rnd(LcgN(x, 7), MaxLen - 1)
      w == Windows[1 + Rnd(LcgN(x, 8), Len(Windows))]
      tf == Synth(n, LcgN(x, 11))
      rf == Synth(n, LcgN(x, 17))
      close == Rnd(LcgN(x, 9), 3) = 0     \* nearly lossless: material signal = free-space signal plus little
      weak == Rnd(LcgN(x, 12), 4)         \* a reflection of 1/m^2: sums just above one and around 1.05
      m == <<4, 5, 6, 9, 15, 40, 60>>[1 + Rnd(LcgN(x, 13), 7)]
  IN IF close /\ weak < 2 THEN [w |-> w, tf |-> tf, tm |-> tf, rf |-> [j \in 1..n |-> m * rf[j]], rm |-> [j \in 1..n |-> (m + 1) * rf[j]]] ELSE
     [w |-> w, tf |-> tf, rf |-> rf,
      tm |-> IF close THEN tf ELSE Synth(n, LcgN(x, 23)),
      rm |-> IF close THEN [j \in 1..n |-> rf[j] + (IF Rnd(LcgN(x, 10), 2) = 0 THEN 0 ELSE rf[j] \div 4)] ELSE Synth(n, LcgN(x, 31))]
ShortCases == UNION {{[w |-> Windows[1], tf |-> a, tm |-> b, rf |-> a, rm |-> b] :
                       a \in [1..n -> Alphabet], b \in [1..n -> Alphabet]} : n \in ShortLens}
Init == /\ c \in ShortCases \/ \E i \in 1..Rand : c = RandomCase(i)
        /\ LET s == DropZeros(c.tf) IN
           IF Short(s, c.w) THEN k = 0 /\ done = TRUE
           ELSE k = NChunks(Len(s), c.w) - 1 /\ done = FALSE
Search == /\ ~done
          /\ LET ch == Changes(DropZeros(c.tf), c.w) m == MaxSeq(ch) IN
             IF m > 0 /\ 2 * ch[k] < m THEN k' = k - 1 /\ done' = FALSE ELSE k' = k /\ done' = TRUE
          /\ UNCHANGED c
Next == Search
(* the search always ends on a window, and what is left is the steady part *)
Found == ~done => k >= 1
Same == (done /\ ~Short(DropZeros(c.tf), c.w)) =>
          SubSeq(DropZeros(c.tf), k * c.w + 1, Len(DropZeros(c.tf))) = Steady(c.tf, c.w, 1, 2)
NonEmpty == Len(Steady(c.tf, c.w, 1, 2)) >= 1
NonNegative == ~Dark(c) => Intensity(Steady(c.tf, c.w, 1, 2))[1] >= 0
Emit == IF done THEN PrintT(ToJson(c)) ELSE TRUE
============================================================================
