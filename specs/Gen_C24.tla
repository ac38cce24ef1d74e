------------------------------ MODULE Gen_C24 ------------------------------
(* Folders of at most Max files; every order in which they may be worked off is explored. *)
EXTENDS C24, Json
CONSTANTS Max, Variants, Names
F(k, v, n) == [kind |-> k, v |-> v, name |-> n]
File == {F("cfg", v, n) : v \in Variants, n \in Names} \cup {F("bad", 1, "p"), F("other", 1, "p"), F("deep", 2, "q")}
Folders == UNION {[1..n -> File] : n \in 0..Max}
(* files in a folder have no order: keep one arrangement *)
Rank(f) == f.v + 10 * (CASE f.name = "p" -> 1 [] f.name = "q" -> 2 [] OTHER -> 3) + 100 * (CASE f.kind = "cfg" -> 1 [] f.kind = "bad" -> 2 [] f.kind = "other" -> 3 [] OTHER -> 4)
Sorted(s) == \A i \in 1..(Len(s) - 1) : Rank(s[i]) <= Rank(s[i + 1])
Few(s) == Cardinality({i \in 1..Len(s) : s[i].kind # "cfg"}) <= 1
Init == BatchInit({s \in Folders : Sorted(s) /\ Few(s)})
Next == BatchNext
Emit == IF done = <<>> /\ end = "" /\ todo = Runs(files) \cup Wrong(files) THEN PrintT(ToJson([files |-> files])) ELSE TRUE
============================================================================
