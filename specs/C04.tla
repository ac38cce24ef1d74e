-------------------------------- MODULE C04 --------------------------------
(* Configuration validation.  A configuration is a function from keys to typed values
   [t |-> type, v |-> value]; numbers are in thousandths (wavelengths in nanometres).
   A case is the default configuration with some entries replaced, removed or added. *)
EXTENDS Num, TLC, FiniteSets

I(n) == [t |-> "int", v |-> 1000 * n]
F(m) == [t |-> "float", v |-> m]
B(b) == [t |-> "bool", v |-> b]
S(s) == [t |-> "str", v |-> s]
LF(s) == [t |-> "flist", v |-> s]          \* list of floats
LL(s) == [t |-> "llist", v |-> s]          \* list of lists of floats
WL(s) == [t |-> "wlist", v |-> s]          \* list of wavelengths in nm
None == [t |-> "none", v |-> 0]
NotANumber == F(NaN)                         \* NaN: a float that satisfies no comparison

Base == [
  name |-> S("example"), seed |-> I(100), eps_oversampling |-> I(1), real_min_eps |-> F(-100000),
  real_max_eps |-> F(100000), imag_min_eps |-> F(0), imag_max_eps |-> F(3000), Nx |-> I(1), Ny |-> I(1),
  N_layers |-> I(2), physical_wavelength_range |-> WL(<<1000, 30000>>), N_freq |-> I(3),
  model_type |-> S("siren"), encoding_dim |-> I(4), siren_omega |-> F(1000), n_neurons |-> I(10),
  hidden_layers |-> I(2), learning_rate |-> F(1), iterations |-> I(1), L |-> F(1000), absorption_loss |-> B(FALSE),
  type |-> S("regression"), use_regularization_loss |-> B(TRUE), reg_loss_weight |-> F(50), add_noise |-> B(FALSE),
  noise_scale |-> F(1), solver |-> S("TRCWA"), PER_LAYER_THICKNESS |-> LF(<<1000>>),
  TRCWA_L_grid |-> LL(<<<<100, 0>>, <<0, 100>>>>), TRCWA_NG |-> I(11), TRCWA_TOP_LAYER_EPS |-> F(1000),
  TRCWA_BOTTOM_LAYER_EPS |-> F(1000), FDTD_min_gridpoints_per_unit_magnitude |-> I(10),
  FDTD_source_type |-> S("line"), FDTD_pulse_type |-> S("continuous"), FDTD_pml_thickness |-> F(1500),
  FDTD_source_position |-> LF(<<1500, 1000>>), FDTD_free_space_distance |-> F(1050), FDTD_niter |-> I(20),
  FDTD_gridpoints_from_material_to_detector |-> I(2),
  target_reflectance_spectrum |-> LF(<<0, 0, 1000>>), target_transmittance_spectrum |-> LF(<<0, 500, 0>>),
  freq_distribution |-> S("linear"), use_gpu |-> B(FALSE), avoid_zero_eps |-> B(TRUE)]
Keys == DOMAIN Base
OptionalKeys == {"target_frequencies", "FDTD_grid", "model", "out_features", "results", "best_model_state_dict",
                 "material_collection", "N_materials", "thicknesses", "FDTD_grid_scaling"}

IntKeys == {"Nx", "Ny", "N_layers", "N_freq", "encoding_dim", "n_neurons", "eps_oversampling", "seed", "TRCWA_NG",
            "FDTD_niter", "FDTD_gridpoints_from_material_to_detector", "FDTD_min_gridpoints_per_unit_magnitude"}
FloatKeys == {"L", "real_min_eps", "real_max_eps", "imag_min_eps", "imag_max_eps", "siren_omega", "noise_scale",
              "reg_loss_weight", "TRCWA_TOP_LAYER_EPS", "TRCWA_BOTTOM_LAYER_EPS", "FDTD_free_space_distance",
              "FDTD_pml_thickness"}
BoolKeys == {"use_regularization_loss", "add_noise", "use_gpu", "avoid_zero_eps"}
StrKeys == {"model_type", "type", "name", "freq_distribution", "solver", "FDTD_source_type", "FDTD_pulse_type"}
ListKeys == {"PER_LAYER_THICKNESS", "TRCWA_L_grid", "FDTD_source_position", "target_reflectance_spectrum",
             "target_transmittance_spectrum", "physical_wavelength_range"}
PositiveKeys == {"L", "n_neurons", "Nx", "Ny", "N_layers", "N_freq", "learning_rate", "iterations",
                 "eps_oversampling", "noise_scale", "TRCWA_NG", "reg_loss_weight", "FDTD_niter",
                 "FDTD_free_space_distance", "FDTD_pml_thickness", "FDTD_gridpoints_from_material_to_detector",
                 "FDTD_min_gridpoints_per_unit_magnitude"}

(* the replacement values tried for a key: wrong types, boundary values, good values *)
WrongTypes(k) ==
  IF k \in IntKeys THEN <<F(4000), S("x"), LF(<<1000>>), None>>
  ELSE IF k \in FloatKeys THEN <<I(2), S("x"), LF(<<1000>>), None>>
  ELSE IF k \in BoolKeys THEN <<I(1), S("x"), None>>
  ELSE IF k \in StrKeys THEN <<I(1), F(1000), None, LF(<<1000>>)>>
  ELSE IF k \in ListKeys THEN <<I(1), F(1000), S("x"), None>>
  ELSE <<>>
Vals(k) ==
  CASE k = "Nx" -> <<I(0), I(-1), I(-4), I(3), I(4), I(6), I(9), I(24)>>
    [] k = "Ny" -> <<I(0), I(-2), I(2), I(3), I(4), I(6), I(9), I(24)>>
    [] k = "eps_oversampling" -> <<I(0), I(-1), I(2), I(3), I(4), I(6), I(12)>>
    [] k = "N_layers" -> <<I(0), I(-1), I(1), I(3), I(12)>>
    [] k \in (PositiveKeys \cap IntKeys) \ {"FDTD_gridpoints_from_material_to_detector"} -> <<I(0), I(-1), I(1), I(7)>>
    [] k = "FDTD_gridpoints_from_material_to_detector" -> <<I(0), I(-3), I(1), I(10), I(11), I(20), I(21)>>
    [] k = "FDTD_free_space_distance" -> <<F(0), F(-1050), F(250), F(150), F(2050)>>
    [] k = "iterations" -> <<I(0), I(-5), I(2)>>
    [] k \in PositiveKeys \cap FloatKeys -> <<F(0), F(-1), F(1), F(-2500), F(2500), NotANumber>>
    [] k = "learning_rate" -> <<F(0), F(-1), F(2), NotANumber>>
    [] k = "real_min_eps" -> <<F(100000), F(100001), F(150000), F(-5), NotANumber>>
    [] k = "real_max_eps" -> <<F(-100000), F(-100001), F(5), NotANumber>>
    [] k = "imag_min_eps" -> <<F(3000), F(3001), F(-1), NotANumber>>
    [] k = "imag_max_eps" -> <<F(0), F(-1), F(1), NotANumber>>
    [] k = "physical_wavelength_range" -> <<WL(<<1000, 1000>>), WL(<<30000, 1000>>), WL(<<500, 501>>), WL(<<2000, 30000>>),
                                            WL(<<500, 1000>>)>>
    [] k = "PER_LAYER_THICKNESS" -> <<LF(<<>>), LF(<<1000, 500>>), LF(<<1000, 500, 200>>), LF(<<0>>), LF(<<-1000>>),
                                      LF(<<1000, -500>>), LF(<<-500, 1000>>), LF(<<1000, 0>>), LF(<<1>>), LF(<<1000, NaN>>), LF(<<NaN>>),
                                      LF(<<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12>>), LF(<<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, -12>>), LF(<<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 0, 12>>)>>
    [] k = "TRCWA_L_grid" -> <<LL(<<<<0, 0>>, <<0, 100>>>>), LL(<<<<100, 0>>, <<0, 0>>>>), LL(<<<<0, 100>>, <<100, 0>>>>),
                               LL(<<<<100, 100>>, <<0, 100>>>>), LL(<<<<100, 0>>, <<100, 100>>>>), LL(<<<<200, 50>>, <<30, 100>>>>),
                               LL(<<<<100, -50>>, <<0, 100>>>>), LL(<<<<100, 0>>, <<-50, 100>>>>), LL(<<<<-50, -100>>, <<0, 100>>>>),
                               LL(<<<<100, 0>>, <<-200, -100>>>>)>>
    [] k = "FDTD_source_position" -> <<LF(<<1500>>), LF(<<1500, 1000, 500>>), LF(<<1500, 1000, 500, 200>>), LF(<<-1500, 1000>>),
                                       LF(<<1500, -1000>>), LF(<<0, 1000>>), LF(<<1500, 0>>), LF(<<1500, 1000, -1>>), LF(<<>>)>>
    [] k \in {"target_reflectance_spectrum", "target_transmittance_spectrum"} ->
                                     <<LF(<<0, 0, 0>>), LF(<<-1, 0, 0>>), LF(<<0, 0, -1000>>), LF(<<-500, -500, -500>>),
                                       LF(<<1000, 1000, 1000>>), LF(<<500, -1, 500>>), LF(<<500, 500>>), LF(<<500, 500, NaN>>), LF(<<500, 500, 500, -1>>),
                                       LF(<<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12>>), LF(<<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, -11, 12>>)>>
    [] k = "type" -> <<S("classification"), S("Regression"), S("both"), S("")>>
    [] k = "freq_distribution" -> <<S("log"), S("Linear"), S("exp"), S("")>>
    [] k = "FDTD_source_type" -> <<S("point"), S("plane"), S("lin")>>
    [] k = "FDTD_pulse_type" -> <<S("ricker"), S("hanning"), S("pulse"), S("")>>
    [] k = "solver" -> <<S("FDTD")>>
    [] k = "name" -> <<S("other")>>
    [] k = "seed" -> <<I(0), I(-1)>>
    [] OTHER -> <<>>
Variants(k) == WrongTypes(k) \o Vals(k)
ExtraKeys == <<[key |-> "Nxx", val |-> I(1)], [key |-> "trcwa_NG", val |-> I(1)], [key |-> "thickness", val |-> LF(<<1000>>)],
               [key |-> "FDTD_grid", val |-> LF(<<1000, 1000>>)], [key |-> "FDTD_grid", val |-> LF(<<1000, -1000>>)],
               [key |-> "FDTD_grid", val |-> LF(<<-1000>>)], [key |-> "target_frequencies", val |-> LF(<<100, 500, 1000>>)],
               [key |-> "N_materials", val |-> I(3)], [key |-> "thicknesses", val |-> LF(<<1000>>)],
               [key |-> "FDTD_grid_scaling", val |-> F(10000)], [key |-> "out_features", val |-> I(2)],
               [key |-> "model", val |-> S("m")], [key |-> "results", val |-> S("r")], [key |-> "best_model_state_dict", val |-> S("s")],
               [key |-> "material_collection", val |-> S("c")], [key |-> "result", val |-> S("r")], [key |-> "Model", val |-> S("m")]>>

----------------------------------------------------------------------------
(* the rules *)
TypeOk(k, v) == /\ (k \in IntKeys => v.t = "int")
                /\ (k \in FloatKeys => v.t = "float")
                /\ (k \in BoolKeys => v.t = "bool")
                /\ (k \in StrKeys => v.t = "str")
                /\ (k \in ListKeys => v.t \in {"flist", "llist", "wlist"})

All(s, P(_)) == \A i \in 1..Len(s) : P(s[i])
Pos(x) == IsNum(x) /\ x > 0
NonNeg(x) == IsNum(x) /\ x >= 0
Leq(x, y) == IsNum(x) /\ IsNum(y) /\ x <= y

(* cells per micrometre, times 1000: the larger of the configured minimum and ten cells per shortest wavelength *)
Scaling(c) == Max2((10 * 1000 * 1000) \div c.physical_wavelength_range.v[1], c.FDTD_min_gridpoints_per_unit_magnitude.v)
FreeCells(c) == (Scaling(c) * c.FDTD_free_space_distance.v) \div 1000000

ValueRules(c) == <<
  Leq(c.real_min_eps.v, c.real_max_eps.v),
  Leq(c.imag_min_eps.v, c.imag_max_eps.v),
  c.physical_wavelength_range.v[1] < c.physical_wavelength_range.v[2],
  FreeCells(c) >= c.FDTD_gridpoints_from_material_to_detector.v \div 1000,
  \A k \in PositiveKeys : Pos(c[k].v),
  c.eps_oversampling.v > 0 => (c.Nx.v % c.eps_oversampling.v = 0 /\ c.Ny.v % c.eps_oversampling.v = 0),
  c.type.v \in {"classification", "regression"},
  c.TRCWA_L_grid.v[1][1] > c.TRCWA_L_grid.v[1][2],
  c.TRCWA_L_grid.v[2][1] < c.TRCWA_L_grid.v[2][2],
  All(c.TRCWA_L_grid.v[1], NonNeg) /\ All(c.TRCWA_L_grid.v[2], NonNeg),
  All(c.PER_LAYER_THICKNESS.v, Pos),
  All(c.FDTD_source_position.v, Pos),
  All(c.target_reflectance_spectrum.v, NonNeg),
  All(c.target_transmittance_spectrum.v, NonNeg),
  Len(c.PER_LAYER_THICKNESS.v) = 1 \/ 1000 * Len(c.PER_LAYER_THICKNESS.v) = c.N_layers.v,
  c.freq_distribution.v \in {"linear", "log"},
  Len(c.FDTD_source_position.v) \in {2, 3},
  c.FDTD_source_type.v \in {"point", "line"},
  c.FDTD_pulse_type.v \in {"ricker", "hanning", "continuous"}>>

(* apply a case: devs is a sequence of [key, val] *)
RECURSIVE Apply(_, _)
Apply(c, devs) == IF devs = <<>> THEN c ELSE Apply([c EXCEPT ![Head(devs).key] = Head(devs).val], Tail(devs))

(* the exception classes the configuration deserves; empty iff it is acceptable *)
Defects(case) ==
  LET c == Apply(Base, case.devs)
      keyBad == case.missing # "" \/ (Len(case.extra) > 0 /\ case.extra[1].key \notin OptionalKeys)
      tyBad == \E k \in Keys : k # case.missing /\ ~TypeOk(k, c[k])
      vBad == IF tyBad THEN FALSE ELSE
                 (\E i \in 1..Len(ValueRules(c)) : ~ValueRules(c)[i])
                 \/ (Len(case.extra) > 0 /\ case.extra[1].key = "FDTD_grid" /\ ~All(case.extra[1].val.v, Pos))
  IN (IF keyBad THEN {"KeyError"} ELSE {}) \cup (IF tyBad THEN {"TypeError"} ELSE {})
     \cup (IF vBad THEN {"RuntimeError"} ELSE {})

(* the detector exactly on the last free-space cell of a product that is a whole number: the floating-point product may
   fall just below it (1e-6 / (500e-9 * 0.1) * 1.05 = 20.999..), so both decisions are admitted *)
Borderline(case) ==
  LET c == Apply(Base, case.devs) IN
  /\ \A k \in {"physical_wavelength_range", "FDTD_min_gridpoints_per_unit_magnitude", "FDTD_free_space_distance",
              "FDTD_gridpoints_from_material_to_detector"} : TypeOk(k, c[k]) /\ (k = "FDTD_free_space_distance" => IsNum(c[k].v))
  /\ (Scaling(c) * c.FDTD_free_space_distance.v) % 1000000 = 0
  /\ FreeCells(c) = c.FDTD_gridpoints_from_material_to_detector.v \div 1000

OutcomeOk(d, o) == IF d = {} THEN o = "ok" ELSE o \in d
Bad(o) ==
  LET d == Defects(o.case) IN
  IF Borderline(o.case) THEN (IF o.changed THEN {"validation_changed_configuration"} ELSE {}) ELSE
  (IF OutcomeOk(d, o.validate) THEN {} ELSE {IF d = {} THEN "rejects_valid" ELSE IF o.validate = "ok" THEN "accepts_invalid" ELSE "wrong_exception"}) \cup
  (IF o.changed THEN {"validation_changed_configuration"} ELSE {}) \cup
  (IF d # {} /\ o.spectrum # "skip" /\ o.spectrum \notin d THEN {"compute_spectrum_accepts_invalid"} ELSE {}) \cup
  (IF d # {} /\ o.training # "skip" /\ o.training \notin d THEN {"run_training_accepts_invalid"} ELSE {}) \cup
  (IF d = {} /\ o.spectrum \notin {"skip", "ok"} THEN {"compute_spectrum_rejects_valid"} ELSE {}) \cup
  (IF o.computed THEN {"computed_before_rejecting"} ELSE {})
============================================================================
