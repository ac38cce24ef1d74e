------------------------------ MODULE Gen_C21 ------------------------------
(* The cases, and drawing a grid marker by marker. *)
EXTENDS C21, Json
CONSTANTS Shapes, Seeds
VARIABLES c, drawn
vars == <<c, drawn>>
(* shape: 1000 nx + 100 ny + 10 nl + nf *)
Base(s, sd) == [kind |-> "", nx |-> s \div 1000, ny |-> (s \div 100) % 10, nl |-> (s \div 10) % 10, nf |-> s % 10, seed |-> sd,
                given |-> FALSE, absorb |-> FALSE, idx |-> <<>>, err |-> FALSE, skip |-> 0, mats |-> <<>>, legend |-> FALSE, own |-> 0,
                os |-> IF (s \div 1000) % 2 = 0 /\ ((s \div 100) % 10) % 2 = 0 /\ sd % 2 = 0 THEN 2 ELSE 1,
                model |-> IF sd % 3 = 2 /\ sd % 2 = 1 THEN "voxel" ELSE IF sd % 3 = 2 THEN "nerf" ELSE "siren",
                save |-> TRUE, fname |-> "", thick |-> FALSE]
Kinds(b) ==
  LET sv == (b.seed + b.nf) % 3 /= 0
      nm == IF (b.seed + b.nx) % 2 = 0 THEN "my.plot" ELSE ""
      two == (b.seed + b.nl) % 2 = 0
      B == [b EXCEPT !.save = sv, !.fname = nm, !.thick = two] IN
  {[B EXCEPT !.kind = "spectra", !.given = g] : g \in BOOLEAN}
  \cup {[B EXCEPT !.kind = "spectrum", !.given = TRUE, !.absorb = a] : a \in BOOLEAN}
  \cup {[B EXCEPT !.kind = k] : k \in {"losses", "modelgrid", "epsgrid", "print"}}
  \cup {[B EXCEPT !.kind = "perfreq", !.idx = i] : i \in
          IF b.nf = 1 THEN {<<0>>} ELSE IF b.nf = 2 THEN {<<0, 1>>, <<1>>, <<1, 0>>}
          ELSE IF b.nf = 3 THEN {<<2, 0>>, <<0, 1, 2>>} ELSE {<<0, 1, 2, 3>>, <<3, 0, b.nf - 1>>} \ {<<3, 0, 3>>}}
  \cup {[B EXCEPT !.kind = "material", !.err = e, !.skip = s, !.own = w] : e \in BOOLEAN, s \in {0, 1, 2}, w \in {0, 1}}
  \cup {[B EXCEPT !.kind = "point", !.legend = e, !.skip = 0, !.own = w, !.mats = m] : e \in BOOLEAN, w \in {0, 1, 2}, m \in {<<>>, <<"zinc_oxide">>, <<"titanium_oxide", "zinc_oxide", "germanium">>}}
Init == /\ \E s \in Shapes, sd \in Seeds : c \in Kinds(Base(s, sd))
        /\ drawn = {}
Draw == /\ c.kind = "modelgrid"
        /\ \E p \in Points(c) \ {d[1] : d \in drawn} :
             /\ \A q \in Points(c) \ {d[1] : d \in drawn} : <<p[1], p[2], p[3]>> = q \/ Flat(c, p) < Flat(c, q)
             /\ drawn' = drawn \cup {<<p, At(c, p)>>}
        /\ UNCHANGED c
Next == Draw
(* no marker hides another one, all lie on the plot *)
Apart == \A d, e \in drawn : d[1] /= e[1] => d[2] /= e[2]
OnPlot == \A d \in drawn : \A k \in 1..3 : d[2][k] \in -1000..1000
Ends == \A d \in drawn : (d[1][1] = 0 => d[2][1] = -1000) /\ (c.nx > 1 /\ d[1][1] = c.nx - 1 => d[2][1] = 1000)
Physical == \A f \in 0..(c.nf - 1) : Target(c, f, 0) + Target(c, f, 1) <= 1000 /\ Given(c, f, 0) + Given(c, f, 1) <= 1000
Emit == IF drawn = {} THEN PrintT(ToJson(c)) ELSE TRUE
============================================================================
