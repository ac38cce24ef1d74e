------------------------------ MODULE Gen_C05 ------------------------------
EXTENDS C05, Json
CONSTANTS Wls, MaxN, Ratios          \* ratios as 10 * rn + rd
VARIABLES c, i, prev
Lin == {[kind |-> "freq", lo |-> a, hi |-> b, n |-> n, dist |-> d, rn |-> 1, rd |-> 1] :
          a \in Wls, b \in Wls, n \in 1..MaxN, d \in {"linear", "uniform", "Log", ""}}
(* log ranges with an exact ratio: start from the short end *)
LogC == {[kind |-> "freq", lo |-> a * Pow(r[2], n - 1), hi |-> a * Pow(r[1], n - 1), n |-> n, dist |-> "log", rn |-> r[1], rd |-> r[2]] :
          a \in {500, 1000, 700}, n \in 2..MaxN, r \in {<<q \div 10, q % 10>> : q \in Ratios}}
OneLog == {[kind |-> "freq", lo |-> a, hi |-> b, n |-> 1, dist |-> "log", rn |-> 1, rd |-> 1] : a \in Wls, b \in Wls}
BigN == {[kind |-> "freq", lo |-> a, hi |-> b, n |-> n, dist |-> d, rn |-> 0, rd |-> 1] :
          a \in {150, 400, 1000, 2500}, b \in {700, 3000, 30000, 60000}, n \in {2, 11, 20, 33, 60, 101}, d \in {"linear", "log"}}
Units == {[kind |-> "unit", x |-> x, lo |-> 1, hi |-> 2, n |-> 0, dist |-> ""] : x \in {100, 125, 333, 1000, 1550, 7777, 30000, 99999}}
Ok(x) == x.lo < x.hi /\ x.hi <= 60000 /\ x.lo >= 100
Init == c \in {x \in Lin \cup BigN \cup LogC \cup OneLog : Ok(x)} \cup Units /\ i = 0 /\ prev = 0
Next == /\ i < c.n /\ c.dist \in Names /\ (c.rn > 0 \/ c.dist = "linear") /\ i' = i + 1 /\ prev' = Freq(c, i) /\ UNCHANGED c
Ascending == [][ (i > 0) => prev' > prev ]_<<c, i, prev>>
Ends == (i > 0) => (prev >= Inv(c.hi) - Tol /\ prev <= Inv(c.lo) + Tol)
Reaches == (c.n > 1 /\ i = c.n) => Near(prev, Inv(c.lo), Tol)
Emit == IF i = 0 THEN PrintT(ToJson(c)) ELSE TRUE
============================================================================
