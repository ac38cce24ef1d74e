------------------------------ MODULE Gen_C23 ------------------------------
(* Films: every film of at most Depth layers from Layers, between every pair of half-spaces, at every
   tangential wave number.  Stacks: random structures walked through layer by layer, each layer
   absorbing some share (in percent) of what is left: the ledger of the power. *)
EXTENDS C23, Json
CONSTANTS Layers, Depth, Betas, Tops, Bots, N, Seed
VARIABLES cs, kind, led
vars == <<cs, kind, led>>
(* code = 1000 q + 100 p + 10 k + j *)
Decode(c) == [q |-> c \div 1000, p |-> (c \div 100) % 10, k |-> (c \div 10) % 10, j |-> c % 10]
Lcg(x) == (x * 1103 + 12345) % 65536
RECURSIVE LcgN(_, _)
LcgN(x, n) == IF n = 0 THEN x ELSE LcgN(Lcg(x), n - 1)
Rnd(x, m) == (x \div 256) % m
(* Nx, Ny, lx, ly, sk *)
Shapes == << <<8, 9, 64, 72, 0>>, <<9, 8, 72, 64, 24>>, <<12, 1, 96, 12, 0>>, <<1, 12, 12, 96, 0>>, <<7, 7, 48, 48, 0>>, <<9, 9, 56, 80, 16>>,
            <<8, 8, 120, 120, 0>>, <<9, 7, 80, 56, 0>> >>
StackOfSeed(i) ==
  LET sh == Shapes[1 + (i % Len(Shapes))]
      x0 == LcgN((Seed * 7919 + i * 41) % 65536, 3)
      nl == 1 + Rnd(x0, 4)
      xs(k) == LcgN(x0, 3 * k)
      cell(k, x, y) == Rnd(LcgN((xs(k) + 97 * x + 1009 * y) % 65536, 2), 4)
  IN [Nx |-> sh[1], Ny |-> sh[2], lx |-> sh[3], ly |-> sh[4], sk |-> sh[5], wl |-> 60 + 10 * Rnd(LcgN(x0, 2), 9),
      layers |-> [k \in 1..nl |-> [t |-> 8 + 8 * Rnd(xs(k), 4),
                                   uni |-> Rnd(LcgN(x0, 3 * k + 1), 4) = 0,
                                   c |-> [x \in 1..sh[1] |-> [y \in 1..sh[2] |-> cell(k, x, y)]]]]]
Init == \/ /\ kind = "film" /\ led = <<0, 0, 0>>
           /\ cs \in [be : Betas, top : Tops, bot : Bots, layers : {<<>>}]
           /\ Film(cs)
        \/ /\ kind = "stack" /\ led = <<100, 0, 1>>      \* power left, absorbed, next layer
           /\ \E i \in 1..N : cs = StackOfSeed(i)
AddLayer == /\ kind = "film" /\ Len(cs.layers) < Depth
            /\ \E c \in Layers : cs' = [cs EXCEPT !.layers = Append(@, Decode(c))]
            /\ Film(cs') /\ UNCHANGED <<kind, led>>
Walk == /\ kind = "stack" /\ led[3] <= Len(cs.layers)
        /\ \E a \in {0, 10, 50} : led' = <<led[1] - (led[1] * a) \div 100, led[2] + (led[1] * a) \div 100, led[3] + 1>>
        /\ UNCHANGED <<cs, kind>>
Next == AddLayer \/ Walk
FilmFacts == kind = "film" => \A pol \in {"s", "p"} : Physical(cs, pol) /\ Reciprocal(cs, pol)
NormalFacts == kind = "film" => Normal(cs)
Balance == kind = "stack" => led[1] + led[2] = 100 /\ led[1] >= 0
Emit == IF kind = "film" THEN PrintT(ToJson([kind |-> kind, cs |-> cs])) ELSE IF led[3] = 1 THEN PrintT(ToJson([kind |-> kind, cs |-> cs])) ELSE TRUE
============================================================================
