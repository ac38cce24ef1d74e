-------------------------------- MODULE C05 --------------------------------
(* Target frequencies and unit conversions.
   Wavelengths are integers in nanometres, frequencies fixed-point 10^-6 per micrometre.
   A case is [lo, hi, n, dist, rn, rd]: for "log" the range satisfies hi/lo = (rn/rd)^(n-1),
   so that the exact frequencies are rational. *)
EXTENDS Num, TLC, FiniteSets
K == 6
Inv(nm) == Fix(1000, nm, K)                       \* 1/wavelength

(* exact frequency number i (0-based) *)
Linear(c, i) == IF c.n = 1 THEN Inv(c.hi)
                ELSE (Inv(c.hi) * (c.n - 1 - i) + Inv(c.lo) * i) \div (c.n - 1)
(* wavelength of number i in nm: hi * (rd/rn)^i *)
LogWl(c, i) == (c.hi * Pow(c.rd, i)) \div Pow(c.rn, i)
LogF(c, i) == IF c.n = 1 THEN Inv(c.hi) ELSE Fix(1000 * Pow(c.rn, i), c.hi * Pow(c.rd, i), K)
Freq(c, i) == IF c.dist = "linear" THEN Linear(c, i) ELSE LogF(c, i)
Tol == 3

Names == {"linear", "log"}
Cl(ok, name) == IF ok THEN {} ELSE {name}
(* log ranges without an exact rational ratio (rn = 0): neighbours have a constant ratio *)
(* double precision: six more digits (10^-12) of the end points, and of the second differences of an even spacing *)
Fine(a, b) == LET q == Inv(b) r == (((1000 * 1000) % b) * 1000) % b       \* 10^9 mod b
                  d1 == (r * 1000) \div b  r1 == (r * 1000) % b IN d1 * 1000 + (r1 * 1000) \div b
FineNear(h, m, nm) == Abs((h - Inv(nm)) * 1000000 + m - Fine(1000, nm)) <= 20
FineClauses(c, fs, ms) ==
  IF Len(fs) # c.n \/ Len(ms) # c.n \/ ~Near(fs[1], Inv(c.hi), Tol) \/ (c.n > 1 /\ ~Near(fs[c.n], Inv(c.lo), Tol)) THEN {} ELSE
  Cl(FineNear(fs[1], ms[1], c.hi) /\ (c.n > 1 => FineNear(fs[c.n], ms[c.n], c.lo)), "range_ends_precision") \cup
  Cl(c.dist = "linear" =>
       \A i \in 2..(c.n - 1) : LET dh == fs[i - 1] - 2 * fs[i] + fs[i + 1]  dm == ms[i - 1] - 2 * ms[i] + ms[i + 1] IN
            Abs(dh) <= 10 /\ Abs(dh * 1000000 + dm) <= 40, "frequency_precision")
Ratio(fs, i) == Fix(fs[i + 1], fs[i], 6)
RTol(fs, i) == 3 + 2500000 \div fs[i]
ConstantRatio(fs) == (\A i \in 1..Len(fs) : fs[i] > 0) /\
   \A i \in 1..(Len(fs) - 1) : Near(Ratio(fs, i), Ratio(fs, 1), RTol(fs, i) + RTol(fs, 1))
FreqClauses(c, fs) ==
  Cl(Len(fs) = c.n, "number_of_frequencies") \cup
  (IF Len(fs) # c.n THEN {} ELSE
    (IF c.dist = "linear" \/ c.rn > 0 THEN Cl(\A i \in 1..c.n : Near(fs[i], Freq(c, i - 1), Tol), "frequency_value")
     ELSE Cl(ConstantRatio(fs), "frequency_value")) \cup
    Cl(\A i \in 1..(c.n - 1) : fs[i] < fs[i + 1], "not_strictly_ascending") \cup
    Cl(Near(fs[1], Inv(c.hi), Tol) /\ (c.n > 1 => Near(fs[c.n], Inv(c.lo), Tol)), "range_ends"))
(* physical wavelengths (picometres) match the frequencies: wl * f = 1 *)
WlClauses(c, ws, fs) ==
  Cl(Len(ws) = Len(fs) /\ \A i \in 1..Len(ws) : Abs(ws[i] - Fix(1000000, fs[i], 6)) <= 3 + ws[i] \div (fs[i] \div 4), "physical_wavelength")
BadFreq(o) ==
  LET c == o.case IN
  IF c.dist \notin Names THEN Cl(o.direct = "ValueError" /\ o.points = "ValueError", "unknown_distribution_not_rejected")
  ELSE Cl(o.direct = "ok" /\ o.points = "ok", "raised") \cup
       (IF o.direct # "ok" \/ o.points # "ok" THEN {} ELSE
          FreqClauses(c, o.f) \cup FreqClauses(c, o.pf) \cup WlClauses(c, o.pw, o.pf) \cup
          Cl(\A i \in 1..Len(o.pr) : Abs(o.pr[i]) <= 20, "physical_wavelength_precision") \cup
          FineClauses(c, o.fh, o.fm) \cup FineClauses(c, o.ph, o.pm) \cup
          Cl(o.stored = o.pf, "frequencies_not_stored") \cup Cl(o.touched = <<>>, "configuration_touched"))
(* unit conversions on a wavelength x nm: inv = 1/x, back = inverse of the inverse, m = metres (as pm), um = back to
   micrometres (nm), c = physical frequency in units of 10^8 Hz (speed of light 299792458 m/s), cback *)
BadUnit(o) ==
  Cl(o.outcome = "ok", "raised") \cup
  (IF o.outcome # "ok" THEN {} ELSE
   Cl(Near(o.inv, Fix(1000, o.x, K), 2), "freq_to_wl") \cup
   Cl(o.back = o.x, "freq_to_wl_not_involutive") \cup
   Cl(o.um = o.x /\ o.pm = o.x, "wavelength_metres_not_inverse") \cup
   Cl(Near(o.hz, Fix(2997925, o.x, 3), 2 + 2000 \div o.x), "physical_frequency") \cup
   Cl(o.cback = o.x, "physical_frequency_not_involutive"))
Bad(o) == IF o.kind = "freq" THEN BadFreq(o) ELSE BadUnit(o)
============================================================================
