-------------------------------- MODULE C20 --------------------------------
(* Network construction (nidn/training/model/init_network.py and nidn/training/utils).
   A network is a sequence of layers [in, out]; a NERF concatenates its input to the input of hidden layer
   number Skip (0-based).  Building and evaluating are separate steps, so that TLC can check that for every size the
   widths chain up. *)
EXTENDS Num, TLC, FiniteSets
Cl(ok, name) == IF ok THEN {} ELSE {name}
Skip == 4
HasSkip(c, i) == c.type = "nerf" /\ i = Skip
(* layer number k of 1..hidden+2 *)
InW(c, k) == IF k = 1 THEN c.enc
             ELSE IF k <= c.hidden + 1 /\ HasSkip(c, k - 2) THEN c.width + c.enc ELSE c.width
OutW(c, k) == IF k = c.hidden + 2 THEN c.out ELSE c.width
NLayers(c) == c.hidden + 2
(* width of the data entering layer k *)
DataW(c, k) == IF k = 1 THEN c.enc
               ELSE OutW(c, k - 1) + (IF k <= c.hidden + 1 /\ HasSkip(c, k - 2) THEN c.enc ELSE 0)
Params(c) == SumSeq([k \in 1..NLayers(c) |-> InW(c, k) * OutW(c, k) + OutW(c, k)])

(* o: [case, outcome, shape, lo, hi (10^-6), perm, sub, rep (max deviation 10^-9), trainable, grads, params, forward] *)
BadNet(o) ==
  LET c == o.case IN
  Cl(o.outcome = "ok", "construction_raised") \cup
  (IF o.outcome # "ok" THEN {} ELSE
   Cl(o.forward = "ok", "evaluation_raised") \cup
   Cl(o.trainable, "parameter_not_trainable") \cup
   Cl(o.params = Params(c), "network_size") \cup
   (IF o.forward # "ok" THEN {} ELSE
    Cl(o.shape = <<c.batch, c.out>>, "output_shape") \cup
    Cl(o.lo >= 0 /\ o.hi <= 1000000, "output_range") \cup
    Cl(o.perm <= 1 /\ o.sub <= 1 /\ o.rep <= 1, "row_depends_on_other_rows") \cup
    (* coordinates far outside the usual range amplify rounding: 10^-6 *)
    Cl(o.wide <= 1000, "row_depends_on_other_rows") \cup
    Cl(o.grads, "parameter_without_gradient") \cup
    Cl(~o.mutated, "input_modified")))
(* voxel: weights initialised inside the ranges, permittivities in 10^-3 *)
BadVoxel(o) ==
  LET c == o.case IN
  IF c.cls THEN Cl(o.outcome = "AssertionError", "voxel_classification_not_rejected")
  ELSE Cl(o.outcome = "ok", "construction_raised") \cup
  (IF o.outcome # "ok" THEN {} ELSE
   Cl(o.forward = "ok", "evaluation_raised") \cup
   Cl(o.trainable, "parameter_not_trainable") \cup
   (IF o.forward # "ok" THEN {} ELSE
    Cl(o.shape = <<c.nx, c.ny, c.nl, c.nf>>, "output_shape") \cup
    Cl(o.rlo >= c.rmin /\ o.rhi <= c.rmax /\ o.ilo >= c.imin /\ o.ihi <= c.imax, "initial_range") \cup
    (* 16 or more independent uniform weights: all of them in the same half of the range, or all equal, has
       probability below 2^-15 for the fixed seeds used here *)
    Cl(c.nx * c.ny * c.nl * c.nf >= 16 =>
        /\ (c.rmax > c.rmin + 4 => o.rlo < (c.rmin + c.rmax) \div 2 /\ o.rhi > (c.rmin + c.rmax) \div 2)
        /\ (c.imax > c.imin + 4 => o.ilo < (c.imin + c.imax) \div 2 /\ o.ihi > (c.imin + c.imax) \div 2), "initial_spread") \cup
    Cl(o.grads, "parameter_without_gradient")))
Bad(o) == IF o.case.type \in {"nerf", "siren"} THEN BadNet(o)
          ELSE IF o.case.type = "voxel" THEN BadVoxel(o)
          ELSE Cl(o.outcome = "NotImplementedError", "unknown_model_not_rejected")
============================================================================
