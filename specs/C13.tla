-------------------------------- MODULE C13 --------------------------------
(* A session on one configuration object.  Results are uninterpreted functions of the user settings
   at the time of the call and, for trainings, of the model supplied and the trainings performed on it:
   nothing else - earlier calls, their solver or settings, the random state, other configurations - may
   matter.  The one piece of derived state is fr, the settings the target frequencies were last derived
   from (by a frequency query, a training or an FDTD spectrum): an RCWA spectrum uses those.
   State: [solver, seed, set, fr, base, chain]; set = [range, dist, nf, thick, lat] the changeable settings;
   base "none": no model yet, "own": a supplied model; chain: the trainings the current model went through. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Cl(ok, name) == IF ok THEN {} ELSE {name}
Set0 == [range |-> 0, dist |-> 0, nf |-> 2, thick |-> 0, lat |-> 0]
Fr(t) == [range |-> t.range, dist |-> t.dist, nf |-> t.nf]
Start == [solver |-> "TRCWA", seed |-> 1, set |-> Set0, fr |-> Fr(Set0), base |-> "none", chain |-> <<>>]
Tr(s) == [seed |-> s.seed, solver |-> s.solver, set |-> s.set]
K(k, solver, set, fr, base, chain) == [k |-> k, solver |-> solver, set |-> set, fr |-> fr, base |-> base, chain |-> chain]
NoK == K("none", "", Set0, Fr(Set0), "", <<>>)
(* the key of a result: everything it may depend on *)
Key(s, o) ==
  CASE o.op = "spec" -> K("spec", s.solver, s.set, IF s.solver = "FDTD" THEN Fr(s.set) ELSE s.fr, "", <<>>)
    [] o.op = "freq" -> K("freq", "", Set0, Fr(s.set), "", <<>>)
    [] o.op = "validate" -> K("validate", "", Set0, Fr(Set0), "", <<>>)
    [] o.op = "train" -> K("train", "", Set0, Fr(Set0), s.base, Append(s.chain, Tr(s)))
    [] OTHER -> NoK
(* an RCWA spectrum needs one frequency per slice *)
Enabled(s, o) == o.op = "spec" /\ s.solver = "TRCWA" => s.fr.nf = s.set.nf
Derives(s, o) == o.op \in {"freq", "train"} \/ (o.op = "spec" /\ s.solver = "FDTD")
Flip(v) == 1 - v
Apply(s, o) ==
  LET t == IF Derives(s, o) THEN [s EXCEPT !.fr = Fr(s.set)] ELSE s IN
  CASE o.op = "seed" -> [t EXCEPT !.seed = o.n]
    [] o.op = "solver" -> [t EXCEPT !.solver = IF @ = "TRCWA" THEN "FDTD" ELSE "TRCWA"]
    [] o.op = "train" -> [t EXCEPT !.chain = Append(@, Tr(s))]
    [] o.op = "drop" -> [t EXCEPT !.base = "none", !.chain = <<>>]
    [] o.op = "supply" -> [t EXCEPT !.base = "own", !.chain = <<>>]
    [] o.op = "range" -> [t EXCEPT !.set.range = o.n]
    [] o.op = "dist" -> [t EXCEPT !.set.dist = Flip(@)]
    [] o.op = "thick" -> [t EXCEPT !.set.thick = Flip(@)]
    [] o.op = "lat" -> [t EXCEPT !.set.lat = Flip(@)]
    [] o.op = "nf" -> [t EXCEPT !.set.nf = 5 - @]
    [] OTHER -> t
(* ----------------------------------------------------------- conformance
   o.steps: [op, key, out, res, ref, settings]; res/ref: ids of the observed result and of the result
   of the same call alone; o.inits: ids of the initial parameters per seed *)
Bad(o) ==
  UNION {LET e == o.steps[i] IN
         Cl(e.out = "ok", "raised") \cup
         Cl(e.key.k = "none" \/ e.res = e.ref, "result depends on earlier calls") \cup
         Cl(e.settings, "user settings changed") : i \in 1..Len(o.steps)}
  \cup Cl(\A i, j \in 1..Len(o.inits) : i /= j => o.inits[i] /= o.inits[j], "another seed gives the same initial parameters")
============================================================================
