------------------------------ MODULE Gen_C10 ------------------------------
(* Builds stacks layer by layer from the top half-space downwards: every stack of at most Depth
   layers from Kinds (= 1000*index + 10*phase + multiplicity), and Rand further stacks of MinLen..MaxLen
   layers drawn with a linear congruential generator. *)
EXTENDS C10, Json
CONSTANTS Kinds, Depth, Tops, Bots, Rand, MinLen, MaxLen, Seed
VARIABLES cs, kind
vars == <<cs, kind>>

Decode(k) == [n |-> k \div 1000, p |-> (k \div 10) % 100, j |-> k % 10]
Lcg(x) == (x * 1103 + 12345) % 65536
RECURSIVE LcgN(_, _)
LcgN(x, n) == IF n = 0 THEN x ELSE LcgN(Lcg(x), n - 1)
Rnd(x, m) == (x \div 256) % m
KSeq == LET RECURSIVE f(_)
            f(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o f(S \ {x})
        IN f(Kinds)
TSeq == <<1, 2, 3, 6, 7>>
BSeq == <<1, 2, 3, 4, 5, 6, 7>>
RandomCase(i) ==
  LET x0 == LcgN((Seed * 7919 + i * 31) % 65536, 3)
      len == MinLen + Rnd(x0, MaxLen + 1 - MinLen)
      xs == [k \in 1..len |-> LcgN(x0, k)]
      x1 == LcgN(x0, len + 1)
      shared == Rnd(LcgN(x1, 1), 5) = 0
      base == 1 + Rnd(LcgN(x1, 2), 3)
  IN [layers |-> [k \in 1..len |->
        IF shared THEN LET q == Rnd(xs[k], 3) IN       \* same thickness: multiplicity = index
                       [n |-> <<1, 3, 4>>[q + 1], p |-> base, j |-> q + 1]
        ELSE Decode(KSeq[1 + Rnd(xs[k], Len(KSeq))])],
      top |-> TSeq[1 + Rnd(LcgN(x1, 3), 5)], bot |-> BSeq[1 + Rnd(LcgN(x1, 4), 7)], shared |-> shared]

Init == \/ /\ kind = "grow"
           /\ cs \in [layers : {<<>>}, top : Tops, bot : Bots, shared : {FALSE}]
        \/ /\ kind = "rand"
           /\ \E i \in 1..Rand : cs = RandomCase(i)
AddLayer == /\ kind = "grow" /\ Len(cs.layers) < Depth
            /\ \E k \in Kinds : cs' = [cs EXCEPT !.layers = Append(@, Decode(k))]
            /\ UNCHANGED kind
Next == AddLayer
PhysicalStacks == Physical(cs, 1)
ReciprocalStacks == Reciprocal(cs, 1)
Emit == IF cs.layers = <<>> THEN TRUE ELSE PrintT(ToJson(cs))
============================================================================
