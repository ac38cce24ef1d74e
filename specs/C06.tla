-------------------------------- MODULE C06 --------------------------------
(* Material database.  Tables (the shipped CSV files) come from tables.json:
     [name |-> STRING, w |-> Seq(Int), n |-> Seq(Int), k |-> Seq(Int)]
   with wavelengths in 10^-7 micrometres and n, k in 10^-6.
   Permittivities are fixed-point 10^-5. *)
EXTENDS Num, TLC, FiniteSets, Json
Tables == JsonDeserialize("tables.json")
NT == Len(Tables)
Cl(ok, name) == IF ok THEN {} ELSE {name}

(* product of two 10^-6 numbers in 10^-6, without leaving 32 bits *)
Mul6(x, y) == LET xh == x \div 10000 xl == x % 10000 yh == y \div 10000 yl == y % 10000
              IN xh * yh * 100 + (xh * yl + xl * yh) \div 100 + (xl * yl) \div 1000000
Mul6s(x, y) == LET p == Mul6(Abs(x), Abs(y)) IN IF (x < 0) # (y < 0) THEN -p ELSE p
EpsRe(m, r) == (Mul6s(Tables[m].n[r], Tables[m].n[r]) - Mul6s(Tables[m].k[r], Tables[m].k[r])) \div 10
EpsIm(m, r) == (2 * Mul6s(Tables[m].n[r], Tables[m].k[r])) \div 10

(* index of the table row whose wavelength is nearest to w (divide and conquer, first on ties) *)
RECURSIVE Near2(_, _, _, _)
Near2(t, w, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi) \div 2
           a == Near2(t, w, lo, mid)
           b == Near2(t, w, mid + 1, hi)
       IN IF Abs(t[b] - w) < Abs(t[a] - w) THEN b ELSE a
Nearest(m, w) == Near2(Tables[m].w, w, 1, Len(Tables[m].w))

IdxOf(name) == CHOOSE m \in 1..NT : Tables[m].name = name
AllNames == {Tables[m].name : m \in 1..NT}
SkipSet(s) == {s[i] : i \in 1..Len(s)}

Tol == 3
(* a wavelength (nearly) half-way between two rows may resolve to either *)
EntryOk(e, name, w) ==
  LET m == IdxOf(name) t == Tables[m].w n == Nearest(m, w)
  IN \E r \in {x \in (n - 1)..(n + 1) : x >= 1 /\ x <= Len(t) /\ Abs(t[x] - w) <= Abs(t[n] - w) + 2} :
       Near(e[1], EpsRe(m, r), Tol) /\ Near(e[2], EpsIm(m, r), Tol)

(* [w: Seq(wavelength), skip: Seq(name), outcome, names, shape, eps: Seq(Seq(<<re, im>>)), rows: Seq([name, eps, outcome]),
    unknown: Seq(outcome)] *)
BadColl(o) ==
  IF Len(o.w) = 0 THEN Cl(o.outcome = "ValueError", "empty_frequencies_not_rejected")
  ELSE Cl(o.outcome = "ok", "raised") \cup
  (IF o.outcome # "ok" THEN {} ELSE
   LET names == {o.names[i] : i \in 1..Len(o.names)} IN
   Cl(names = AllNames \ SkipSet(o.skip) /\ Cardinality(names) = Len(o.names), "materials") \cup
   Cl(o.nmat = Len(o.names), "material_count") \cup
   Cl(o.shape = <<Len(o.names), Len(o.w)>>, "table_shape") \cup
   (IF o.shape # <<Len(o.names), Len(o.w)>> \/ ~(names \subseteq AllNames) THEN {} ELSE
     Cl(\A i \in 1..Len(o.names) : \A f \in 1..Len(o.w) : EntryOk(o.eps[i][f], o.names[i], o.w[f]), "permittivity")) \cup
   Cl(\A i \in 1..Len(o.rows) :
        LET q == o.rows[i] IN
        IF q.name \in names THEN q.outcome = "ok" /\ Len(q.eps) = Len(o.w)
                                 /\ \A f \in 1..Len(o.w) : EntryOk(q.eps[f], q.name, o.w[f])
        ELSE q.outcome = "KeyError", "lookup_by_name"))

----------------------------------------------------------------------------
(* closest material: point permittivities and distances in hundredths *)
RECURSIVE ISqrt(_, _)
ISqrt(n, x) == IF x * x <= n /\ (x + 1) * (x + 1) > n THEN x
               ELSE ISqrt(n, (x + n \div x) \div 2)
Sqrt(n) == IF n = 0 THEN 0 ELSE ISqrt(n, 1 + Min2(n, 46000) \div 2)
DistF(p, m, w) == LET r == Nearest(m, w)
                      a == p[1] - EpsRe(m, r) \div 1000
                      b == p[2] - EpsIm(m, r) \div 1000
                  IN Sqrt(a * a + b * b)
Dist(p, name, ws) == SumSeq([f \in 1..Len(ws) |-> DistF(p[f], IdxOf(name), ws[f])]) \div Len(ws)
BadClosest(o) ==
  Cl(o.outcome = "ok", "raised") \cup
  (IF o.outcome # "ok" THEN {} ELSE
   Cl(\A q \in 1..Len(o.points) :
       LET p == o.points[q] IN
       p.idx >= 1 /\ p.idx <= Len(o.names)
       /\ \A i \in 1..Len(o.names) : Dist(p.eps, o.names[p.idx], o.w) <= Dist(p.eps, o.names[i], o.w) + 6, "closest_material") \cup
   Cl(\A q \in 1..Len(o.points) :
       LET p == o.points[q] IN
       p.idx >= 1 /\ p.idx <= Len(o.names) => Near(p.dist, Dist(p.eps, o.names[p.idx], o.w), 4), "closest_distance"))
Bad(o) == IF o.kind = "coll" THEN BadColl(o) ELSE BadClosest(o)
============================================================================
