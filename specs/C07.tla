-------------------------------- MODULE C07 --------------------------------
(* Layer builder.  Cell (i,j), 0-based, of an Nx x Ny layer lies at (i/(Nx-1), j/(Ny-1)) in the unit square
   (at 0 if there is only one cell).  Lengths (a, radius, centre) are in units of 1/U.
   A history is a sequence of builds with one builder:
     [op |-> "uniform"|"square"|"circle", g, s (materials), a, r, cx, cy] *)
EXTENDS Num, TLC, FiniteSets
U == 64
Cl(ok, name) == IF ok THEN {} ELSE {name}
Den(n) == IF n = 1 THEN 1 ELSE n - 1

(* sign comparison of i/(n-1) with x/U *)
Gt(i, n, x) == i * U > x * Den(n)
Lt(i, n, x) == i * U < x * Den(n)
InSquare(b, nx, ny, i, j) == Gt(i, nx, b.a) /\ Lt(i, nx, U - b.a) /\ Gt(j, ny, b.a) /\ Lt(j, ny, U - b.a)
(* (i/(nx-1) - cx/U)^2 + (j/(ny-1) - cy/U)^2 < (r/U)^2, multiplied by (U*dx*dy)^2 *)
InCircle(b, nx, ny, i, j) ==
  LET dx == Den(nx) dy == Den(ny)
      p == (i * U - b.cx * dx) * dy
      q == (j * U - b.cy * dy) * dx
      r == b.r * dx * dy
  IN p * p + q * q < r * r
OnSquareEdge(b, nx, ny, i, j) == i * U = b.a * Den(nx) \/ i * U = (U - b.a) * Den(nx) \/ j * U = b.a * Den(ny) \/ j * U = (U - b.a) * Den(ny)
OnCircleEdge(b, nx, ny, i, j) ==
  LET dx == Den(nx) dy == Den(ny)
      p == (i * U - b.cx * dx) * dy
      q == (j * U - b.cy * dy) * dx
      r == b.r * dx * dy
  IN p * p + q * q = r * r
Dyadic(n) == Den(n) \in {1, 2, 4, 8, 16}
(* a boundary hit is only decided where floating point represents the coordinates exactly *)
Decidable(b, nx, ny, i, j) == (Dyadic(nx) /\ Dyadic(ny))
   \/ CASE b.op = "square" -> ~OnSquareEdge(b, nx, ny, i, j)
        [] b.op = "circle" -> ~OnCircleEdge(b, nx, ny, i, j)
        [] OTHER -> TRUE
Inner(b, nx, ny, i, j) == CASE b.op = "square" -> InSquare(b, nx, ny, i, j)
                            [] b.op = "circle" -> InCircle(b, nx, ny, i, j)
                            [] OTHER -> FALSE
MaterialAt(b, nx, ny, i, j) == IF Inner(b, nx, ny, i, j) THEN b.s ELSE b.g
Known(b, names) == b.g \in names /\ (b.op # "uniform" => b.s \in names)

(* cells: Seq over i of Seq over j of material name ("?" = no single material matches at all frequencies) *)
BadBuild(o, b, res, names) ==
  IF ~Known(b, names) THEN Cl(res.outcome = "KeyError", "unknown_material_not_rejected")
  ELSE Cl(res.outcome = "ok", "raised") \cup
  (IF res.outcome # "ok" THEN {} ELSE
   Cl(res.shape = <<o.nx, o.ny, o.nf>>, "layer_shape") \cup
   (IF res.shape # <<o.nx, o.ny, o.nf>> THEN {} ELSE
    Cl(\A i \in 0..(o.nx - 1) : \A j \in 0..(o.ny - 1) :
         Decidable(b, o.nx, o.ny, i, j) => res.cells[i + 1][j + 1] = MaterialAt(b, o.nx, o.ny, i, j), b.op)))
Bad(o) == LET names == {o.names[i] : i \in 1..Len(o.names)}
          IN UNION {BadBuild(o, o.builds[x], o.results[x], names) : x \in 1..Len(o.builds)}
             \cup Cl(~o.touched, "configuration_touched")
============================================================================
