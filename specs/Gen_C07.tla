------------------------------ MODULE Gen_C07 ------------------------------
EXTENDS C07, Json
CONSTANTS Sizes, As, Rs, Cs
VARIABLES b, nx, ny
Blank == [op |-> "uniform", g |-> "germanium", s |-> "zinc_oxide", a |-> 0, r |-> 0, cx |-> 0, cy |-> 0]
Builds == {Blank} \cup {[Blank EXCEPT !.op = "square", !.a = a] : a \in As}
          \cup {[Blank EXCEPT !.op = "circle", !.r = r, !.cx = x, !.cy = y] : r \in Rs, x \in Cs, y \in Cs}
Init == b \in Builds /\ nx \in Sizes /\ ny \in Sizes
Next == UNCHANGED <<b, nx, ny>>
(* the square is centred: mirror images of inner cells are inner *)
SquareSymmetric == b.op = "square" => \A i \in 0..(nx - 1) : \A j \in 0..(ny - 1) :
   (nx > 1 /\ ny > 1) => (InSquare(b, nx, ny, i, j) <=> InSquare(b, nx, ny, nx - 1 - i, j))
CircleSymmetric == (b.op = "circle" /\ b.cx = U \div 2 /\ nx > 1) => \A i \in 0..(nx - 1) : \A j \in 0..(ny - 1) :
   (InCircle(b, nx, ny, i, j) <=> InCircle(b, nx, ny, nx - 1 - i, j))
(* growing the hole never removes cells *)
Monotone == \A i \in 0..(nx - 1) : \A j \in 0..(ny - 1) : Inner(b, nx, ny, i, j) =>
   IF b.op = "circle" THEN InCircle([b EXCEPT !.r = @ + 1], nx, ny, i, j)
   ELSE InSquare([b EXCEPT !.a = @ - 1], nx, ny, i, j)
Emit == PrintT(ToJson([b |-> b, nx |-> nx, ny |-> ny]))
============================================================================
