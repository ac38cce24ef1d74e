------------------------------ MODULE Gen_C11 ------------------------------
(* Random base structures (linear congruential generator) and every sequence of at most Depth
   symmetry operations on each of them. *)
EXTENDS C11, Json
CONSTANTS N, Depth, Seed, NCodes, Ops
VARIABLES base, cur, ops, id
vars == <<base, cur, ops, id>>

Lcg(x) == (x * 1103 + 12345) % 65536
RECURSIVE LcgN(_, _)
LcgN(x, n) == IF n = 0 THEN x ELSE LcgN(Lcg(x), n - 1)
Rnd(x, m) == (x \div 256) % m
(* shapes: Nx, Ny, lx, ly, uniform direction (0 none, 1 x, 2 y), lateral offset sk of the second lattice vector, least number of layers *)
Shapes == << <<3, 3, 32, 32, 0, 0, 1>>, <<4, 4, 32, 32, 0, 0, 1>>, <<5, 3, 32, 32, 0, 0, 1>>, <<3, 6, 96, 96, 0, 0, 1>>, <<6, 6, 64, 32, 0, 0, 1>>, <<8, 6, 32, 48, 0, 0, 1>>,
            <<1, 6, 8, 64, 0, 0, 1>>, <<1, 8, 8, 96, 0, 0, 1>>, <<6, 1, 64, 8, 0, 0, 1>>, <<7, 1, 96, 8, 0, 0, 1>>, <<5, 4, 48, 48, 2, 0, 1>>, <<4, 6, 48, 48, 1, 0, 1>>,
            <<3, 3, 200, 200, 0, 0, 1>>, <<1, 6, 8, 64, 1, 0, 1>>, <<6, 1, 64, 8, 2, 0, 1>>, <<3, 5, 16, 16, 0, 0, 1>>, <<5, 5, 96, 80, 0, 0, 1>>,
            <<6, 6, 32, 56, 0, 8, 1>>, <<4, 4, 48, 48, 0, 16, 1>>, <<6, 4, 64, 48, 0, 24, 1>>, <<3, 3, 32, 32, 0, 0, 7>>, <<6, 6, 40, 64, 0, 40, 1>>,
            <<6, 6, 64, 40, 0, 12, 1>>, <<7, 7, 32, 64, 0, 48, 1>>, <<6, 6, 32, 72, 0, 0, 1>>, <<6, 6, 72, 48, 0, 0, 1>> >>
BaseOf(i) ==
  LET sh == Shapes[1 + (i % Len(Shapes))]
      x0 == LcgN((Seed * 7919 + i * 37) % 65536, 4)
      nl == sh[7] + Rnd(x0, 3)
      lx(k) == LcgN(x0, k * 3)
      cell(k, x, y) == Rnd(LcgN((lx(k) + 97 * (IF sh[5] = 1 THEN 1 ELSE x) + 1009 * (IF sh[5] = 2 THEN 1 ELSE y)) % 65536, 2), NCodes)
  IN [Nx |-> sh[1], Ny |-> sh[2], lx |-> sh[3], ly |-> sh[4], sk |-> sh[6], b |-> Unit, mx |-> 2, my |-> 2, sup |-> 1, wl |-> 96 + 8 * Rnd(LcgN(x0, 2), 12),
      layers |-> [k \in 1..nl |-> [t |-> 16 * (1 + Rnd(lx(k), 3)),
                                   c |-> [x \in 1..sh[1] |-> [y \in 1..sh[2] |-> cell(k, x, y)]]]]]
OpSet == {Op("shift", 1, 0), Op("shift", 0, 1), Op("shift", 2, 1), Op("shift", 1, 2), Op("mirx", 0, 0), Op("miry", 0, 0),
          Op("split", 1, 0), Op("split", 2, 0), Op("split", 3, 0), Op("scale", 2, 0), Op("repx", 5, 0), Op("repx", 7, 0), Op("supx", 0, 0), Op("supy", 0, 0), Op("perx", 0, 0), Op("pery", 0, 0), Op("repy", 6, 0), Op("repy", 8, 0), Op("shear1", 1, 0), Op("shear2", 1, 0), Op("shear1", 0 - 1, 0), Op("shear2", 0 - 1, 0), Op("turn", 0, 0)}
Init == \E i \in 1..N : id = i /\ base = BaseOf(i) /\ cur = base /\ ops = <<>>
Next == /\ Len(ops) < Depth
        /\ \E o \in {o \in OpSet : o.op \in Ops} :
             Enabled(cur, o) /\ cur' = Apply(cur, o) /\ ops' = Append(ops, o)
        /\ UNCHANGED <<base, id>>
Content0 == SameContent(base, cur)
Ratios0 == SameRatios(base, cur)
(* every operation but the split is undone by an operation of the same kind *)
Undo == /\ ops /= <<>> /\ ops[Len(ops)].op = "mirx" => MirrorX(MirrorX(cur)) = cur
        /\ Len(ops) = 1 /\ ops[1].op = "shift" => Shift(cur, base.Nx - ops[1].a, base.Ny - ops[1].b) = base
        /\ ops /= <<>> /\ ops[Len(ops)].op = "shear1" => Shear1(Shear1(cur, 0 - 1), 1) = cur
        /\ ops /= <<>> /\ ops[Len(ops)].op = "shear2" => Shear2(Shear2(cur, 0 - 1), 1) = cur
(* the basis always spans the same lattice *)
SameLattice == Abs(Det(cur.b)) = 1
Emit == PrintT(ToJson([id |-> id, ops |-> ops, s |-> cur]))
============================================================================
