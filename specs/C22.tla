-------------------------------- MODULE C22 --------------------------------
(* Absorbing boundaries.  The region between them behaves as if space went on: the fields there are those
   of the same scene on a grid so large that nothing comes back in time.
   Line cases (one axis): the open grid is part of this specification.  Fields are integers in units of 2^-18.
     c: ax (axis), m (component of the potential), n (inner cells), th (absorbing cells), lo, hi (absorbing
     faces; the others are the closed edges of the grid), cn/cd (courant number), bg (permittivity),
     w (width), pos, steps, every.
   Box cases (two or three axes): the open grid is a larger grid of the code under test, whose steps C14 decides. *)
EXTENDS Num, TLC, FiniteSets
Cl(ok, name) == IF ok THEN {} ELSE {name}
SC == 262144
(* exp(-d^2/w^2) in units of 2^-18 *)
Bump3 == <<262144, 234575, 168087, 96438, 44306, 16299, 4801, 1132, 214, 32, 4>>
Bump4 == <<262144, 246258, 204157, 149368, 96438, 54946, 27629, 12260, 4801, 1659, 506, 136, 32, 7, 1>>
Bump(w) == IF w = 3 THEN Bump3 ELSE Bump4
Pot(w, d) == IF Abs(d) < Len(Bump(w)) THEN Bump(w)[Abs(d) + 1] ELSE 0
Reach(w) == IF w = 3 THEN 8 ELSE 10          \* the initial pulse keeps this distance from the boundaries
Nx1(k) == (k % 3) + 1
Nx2(k) == ((k + 1) % 3) + 1
(* the potential has component m, the waves travel along ax: E has the third component *)
EComp(c) == 6 - c.ax - c.m
Sgn(c) == IF c.ax = Nx1(EComp(c)) THEN 1 ELSE -1
Rdiv(n, d) == IF n >= 0 THEN (n + d \div 2) \div d ELSE -((-n + d \div 2) \div d)

(* the open line: cells X(c), of which 0..n-1 are the inner ones; pad: how far space goes on *)
Pad(c) == c.steps \div 2 + 4
First(c, pad) == IF c.lo THEN -pad ELSE 0
Last(c, pad) == c.n - 1 + (IF c.hi THEN pad ELSE 0)
Start(c, pad) == [e |-> [x \in First(c, pad)..Last(c, pad) |->
                          IF x = First(c, pad) THEN 0 ELSE Sgn(c) * (Pot(c.w, x - c.pos) - Pot(c.w, x - 1 - c.pos))],
                  h |-> [x \in First(c, pad)..Last(c, pad) |-> 0]]
Step(c, s) ==
  LET f == Sgn(c) * c.cn
      D == DOMAIN s.e
      e == TLCEval([x \in D |-> s.e[x] + (IF (x - 1) \in D THEN Rdiv(f * (s.h[x] - s.h[x - 1]), c.cd * c.bg) ELSE 0)])
      h == TLCEval([x \in D |-> s.h[x] + (IF (x + 1) \in D THEN Rdiv(f * (e[x + 1] - e[x]), c.cd) ELSE 0)])
  IN [e |-> e, h |-> h]
RECURSIVE Adv(_, _, _)
Adv(c, s, k) == IF k = 0 THEN s ELSE Adv(c, TLCEval(Step(c, s)), k - 1)
Peak(c) == LET s == Start(c, 2) IN MaxSeq([x \in 1..c.n |-> Abs(s.e[x - 1])])

(* ----------------------------------------------------------- conformance
   o: case, out, frames (line: [e, h] of the inner cells after every `every` steps), pairs (box: <<closed, open>>
   samples in 10^-6 of the peak), late (largest inner field long after, 10^-6 of the peak, 0 when a closed face
   keeps the waves inside), again (largest difference between the run and its repetition after a reset, 10^-9),
   other (largest field in the other components, line only, units 2^-18), reject: outcomes of misplaced boundaries *)
LineTol(c) == (IF c.th >= 12 \/ c.w = 4 THEN (3 * Peak(c)) \div 1000 ELSE Peak(c) \div 100) + 60
Off(c, s, f) == MaxSeq([x \in 1..c.n |-> IF IsNum(f.e[x]) /\ IsNum(f.h[x])
                                         THEN Max2(Abs(f.e[x] - s.e[x - 1]), Abs(f.h[x] - s.h[x - 1])) ELSE NaN])
RECURSIVE Frames(_, _, _, _)
Frames(c, s, fs, i) ==
  IF i > Len(fs) THEN {}
  ELSE LET s1 == TLCEval(Adv(c, s, c.every)) IN
       Cl(Off(c, s1, fs[i]) <= LineTol(c), "inner fields differ from open space") \cup Frames(c, s1, fs, i + 1)
BoxTol == 2000
Bad(o) ==
  LET c == o.case IN
  Cl(o.out = "ok", "raised") \cup
  (IF o.out # "ok" THEN {} ELSE
   (IF o.kind = "line" THEN
      Cl(Len(o.frames) = c.steps \div c.every /\ \A i \in 1..Len(o.frames) : Len(o.frames[i].e) = c.n /\ Len(o.frames[i].h) = c.n, "frames")
      \cup (IF \E i \in 1..Len(o.frames) : Len(o.frames[i].e) # c.n THEN {} ELSE Frames(c, Start(c, Pad(c)), o.frames, 1))
      \cup Cl(o.other <= 20, "field in a component that is not excited")
    ELSE Cl(Len(o.pairs) > 0, "samples")
         \cup Cl(\A i \in 1..Len(o.pairs) : Near(o.pairs[i][1], o.pairs[i][2], BoxTol), "inner fields differ from open space")) \cup
   Cl(IsNum(o.late) /\ o.late <= 5000, "fields remain after everything left") \cup
   Cl(IsNum(o.again) /\ o.again <= 100, "a run after reset differs from the first") \cup
   Cl(\A i \in 1..Len(o.reject) : o.reject[i] # "ok", "misplaced boundary accepted"))
============================================================================
