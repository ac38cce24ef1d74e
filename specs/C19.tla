-------------------------------- MODULE C19 --------------------------------
(* Saving, loading and plotting runs.  Two runs A and B live in one session; a saved file is a
   snapshot of its run.  Contents are abstract values.
   State: run[r] = content of run r, file[k] = [sub, r, content] of the k-th saved file,
   plots = folders with a complete set of plots. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Runs == {"A", "B"}
Subs == {"", "s", "s/t"}
Cl(ok, name) == IF ok THEN {} ELSE {name}
Empty == [run |-> [r \in Runs |-> 0], file |-> <<>>, plots |-> {}, next |-> 1]
(* operations: [op, r, sub]; "edit" and "train" give the run a new content *)
Apply(s, o) ==
  CASE o.op \in {"edit", "train"} -> [s EXCEPT !.run[o.r] = s.next, !.next = @ + 1]
    [] o.op = "save" -> [s EXCEPT !.file = Append(@, [sub |-> o.sub, r |-> o.r, content |-> s.run[o.r]])]
    [] o.op = "plots" -> [s EXCEPT !.plots = @ \cup {o.sub}]
    [] OTHER -> s
(* ----------------------------------------------------------- conformance
   e: one performed operation: op, r, sub, out, before/after: content ids of the runs, files/files2: content ids
   of all result files before and after, new: saved files that appeared [dir, prefix, loaded], png: plots present
   in the folder afterwards, reload: contents of all saved files loaded again, expect: contents they were saved with *)
Kept(e) == \A f \in DOMAIN e.files : f \in DOMAIN e.files2 /\ e.files2[f] = e.files[f]
Kinds == {"spectra", "loss", "model_grid", "per_freq", "material", "eps"}
Bad1(e) ==
  Cl(e.out = "ok", "raised") \cup
  (IF e.out /= "ok" THEN {} ELSE
   Cl(e.op \in {"edit", "train"} \/ e.before = e.after, "run changed by saving, loading or plotting") \cup
   Cl(e.reload = e.expect, "file differs from the run it was saved from") \cup
   (IF e.op = "save" THEN
      Cl(Kept(e), "another file changed or removed") \cup
      Cl(Len(e.new) = 1, "exactly one new file") \cup
      Cl(\A i \in 1..Len(e.new) : e.new[i].dir = e.sub, "folder") \cup
      Cl(\A i \in 1..Len(e.new) : e.new[i].prefix, "file name starts with the run's name") \cup
      Cl(\A i \in 1..Len(e.new) : e.new[i].loaded = e.before[e.r], "loaded run differs from the run")
    ELSE IF e.op = "plots" THEN
      Cl({e.png[i] : i \in 1..Len(e.png)} = Kinds, "plots missing") \cup
      Cl(Len(e.new) = 0, "unexpected run file") \cup
      Cl(e.kept, "another file changed or removed")
    ELSE Cl(Kept(e) /\ Len(e.new) = 0, "files changed")))
Bad(o) == UNION {Bad1(o.steps[i]) : i \in 1..Len(o.steps)}
============================================================================
