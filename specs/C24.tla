------------------------------- MODULE C24 -------------------------------
(* The batch runner: a folder of files is worked off in any order.  A file is
     [kind: "cfg" (a valid configuration), "bad" (an invalid one), "other" (not a .toml file), "deep" (in a subfolder),
      v: the settings it holds, name: name of the run]
   A valid configuration leaves the run its training alone would give (Alone) and its plots; an invalid one ends the batch.
   Nothing else is read or written. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Runs(files) == {i \in 1..Len(files) : files[i].kind = "cfg"}
Wrong(files) == {i \in 1..Len(files) : files[i].kind = "bad"}
Alone(f) == <<f.v, f.name>>
(* multiset of results as a function from result to count *)
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Count(a, a[i]) = Count(b, a[i])
SubBag(a, b) == \A i \in 1..Len(a) : Count(a, a[i]) <= Count(b, a[i])

(* state machine *)
VARIABLES files, todo, done, end
Take(i) == /\ end = "" /\ i \in todo
           /\ IF files[i].kind = "bad" THEN end' = "failed" /\ done' = done ELSE end' = "" /\ done' = Append(done, Alone(files[i]))
           /\ todo' = todo \ {i} /\ UNCHANGED files
Finish == end = "" /\ todo = {} /\ end' = "ok" /\ UNCHANGED <<files, todo, done>>
BatchInit(F) == files \in F /\ todo = Runs(files) \cup Wrong(files) /\ done = <<>> /\ end = ""
BatchNext == Finish \/ \E i \in todo : Take(i)
Wanted(fs) == LET RECURSIVE go(_)
                  go(S) == IF S = {} THEN <<>> ELSE LET i == CHOOSE i \in S : TRUE IN <<Alone(fs[i])>> \o go(S \ {i})
              IN go(Runs(fs))
(* whatever the order: everything is there after a batch without invalid configurations, and never anything else *)
Complete == end = "ok" => SameBag(done, Wanted(files))
Sound == SubBag(done, Wanted(files))
FailsOnlyIfWrong == (end = "failed" => Wrong(files) # {}) /\ (end = "ok" => Wrong(files) = {})

(* conformance: o.files as above with the id `alone` of the run trained alone and `plots` of its plots;
   o.runs: <<[id, name, dir: folder holds the name, where]>>, o.plots: <<[where, id]>>, o.out: exit code zero *)
Cl(ok, name) == IF ok THEN {} ELSE {name}
IdsWanted(o) == LET RECURSIVE go(_)
                    go(S) == IF S = {} THEN <<>> ELSE LET i == CHOOSE i \in S : TRUE IN <<o.files[i].alone>> \o go(S \ {i})
                IN go(Runs(o.files))
Single(o, i) == \A j \in 1..Len(o.files) : (j /= i /\ o.files[j].kind = "cfg") => o.files[j].name /= o.files[i].name
Bad(o) ==
  LET got == [k \in 1..Len(o.runs) |-> o.runs[k].id]
      want == IdsWanted(o) IN
  IF o.files = <<>> /\ o.noarg THEN Cl(~o.ok, "usage") \cup Cl(o.runs = <<>>, "runs without a folder") ELSE
  Cl(o.ok <=> Wrong(o.files) = {}, "exit")
  \cup Cl(IF o.ok THEN SameBag(got, want) ELSE SubBag(got, want), "runs")
  \cup Cl(o.kept, "configuration files changed")
  \cup Cl(o.stray = <<>>, "files elsewhere")
  \cup Cl(\A k \in 1..Len(o.runs) : o.runs[k].dir, "folder")
  \cup Cl(Cardinality({o.runs[k].top : k \in 1..Len(o.runs)}) <= 1, "one results folder")
  \cup Cl(o.ok => \A i \in Runs(o.files) : \E k \in 1..Len(o.plots) : o.plots[k].name = o.files[i].name, "plots missing")
  \cup Cl(o.ok => \A i \in Runs(o.files) : Single(o, i) =>
            \A k \in 1..Len(o.plots) : o.plots[k].name = o.files[i].name => o.plots[k].id = o.files[i].plots, "plots of another run")
==========================================================================
