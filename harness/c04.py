from common import *

FOCUS = ["Nx", "Ny", "eps_oversampling", "N_layers", "PER_LAYER_THICKNESS", "physical_wavelength_range",
         "FDTD_free_space_distance", "FDTD_gridpoints_from_material_to_detector", "real_min_eps", "real_max_eps",
         "imag_min_eps", "imag_max_eps", "solver", "type", "FDTD_min_gridpoints_per_unit_magnitude",
         "FDTD_source_position", "TRCWA_L_grid"]


def gen_cfg(maxdev, focus, keys=True):
    return """CONSTANTS MaxDev = %d Focus = {%s} WithKeys = %s
INIT Init
NEXT Next
INVARIANTS Total BaseAccepted MissingAlwaysRejected WrongTypeRejected
CONSTRAINT Emit
""" % (maxdev, ", ".join('"%s"' % f for f in focus), "TRUE" if keys else "FALSE")


TRACE_CFG = "INIT Init\nNEXT Next\nPOSTCONDITION Post\n"


def num(x):
    return float("nan") if abs(x) >= NAN else x / 1000.0


def py(v):
    t, x = v["t"], v["v"]
    if t == "int":
        return x // 1000
    if t == "float":
        return num(x)
    if t in ("bool", "str"):
        return x
    if t == "flist":
        return [num(y) for y in x]
    if t == "wlist":
        return [y * 1e-9 for y in x]
    if t == "llist":
        return [[z / 1000.0 for z in y] for y in x]
    return None


BASE = None


def build(case):
    import nidn
    from dotmap import DotMap
    c = nidn.load_default_cfg()
    # the model's base configuration
    c.update(dict(name="example", N_layers=2, N_freq=3, n_neurons=10, hidden_layers=2, learning_rate=0.001, iterations=1,
                  FDTD_free_space_distance=1.05, FDTD_niter=20, target_reflectance_spectrum=[0.0, 0.0, 1.0],
                  target_transmittance_spectrum=[0.0, 0.5, 0.0]))
    for d in case["devs"]:
        c[d["key"]] = py(d["val"])
    for e in case["extra"]:
        c[e["key"]] = py(e["val"])
    if case["missing"]:
        del c[case["missing"]]
    return c


def snapshot(c):
    return json.dumps({k: repr(c[k]) for k in list(c.keys())}, sort_keys=True)


def drive(case):
    import nidn, torch
    from nidn.utils.validate_config import _validate_config
    o = {"case": case, "spectrum": "skip", "training": "skip", "computed": False}
    c = build(case)
    before = snapshot(c)
    o["validate"], _ = outcome(_validate_config, c)
    o["changed"] = snapshot(c) != before
    bad = o["validate"] != "ok"
    if bad or not case["devs"]:
        c = build(case)
        before = snapshot(c)
        if not bad:
            nidn.get_frequency_points(c)
        o["spectrum"], _ = outcome(nidn.compute_spectrum, torch.full((1, 1, 2, 3), 4.0 + 0.0j, dtype=torch.cdouble), c)
        if bad:
            o["computed"] = snapshot(c) != before
    if bad:
        c = build(case)
        before = snapshot(c)
        o["training"], _ = outcome(nidn.run_training, c)
        o["computed"] = o["computed"] or any(k in c for k in ("results", "model", "best_model_state_dict") if k not in before)
    return o


def canary(o):
    o["validate"] = "ValueError"
    return o


def run(ck):
    cs = ck.cases("Gen_C04", gen_cfg(1, [], True), workers=8)          # every single edit x key edit
    single = [c for c in cs if len(c["devs"]) + bool(c["missing"]) + len(c["extra"]) <= 1]
    multi = [c for c in cs if c not in single]
    multi = ck.rng.sample(multi, min(len(multi), 6000 if ck.thorough else 500))
    pairs = ck.cases("Gen_C04", gen_cfg(2, FOCUS, False), workers=8, n=30000 if ck.thorough else 5000)
    triple = ck.cases("Gen_C04", gen_cfg(3, ["Nx", "Ny", "eps_oversampling"], False), workers=8)
    seen = {}
    for c in triple:
        if {d["key"] for d in c["devs"]} == {"Nx", "Ny", "eps_oversampling"} and all(d["val"]["t"] == "int" and d["val"]["v"] > 0 for d in c["devs"]):
            seen[tuple(sorted((d["key"], d["val"]["v"]) for d in c["devs"]))] = c
    pairs += [seen[k] for k in sorted(seen)]
    layers = ck.cases("Gen_C04", gen_cfg(2, ["N_layers", "PER_LAYER_THICKNESS"], False), workers=8)
    pairs += [c for c in layers if {d["key"] for d in c["devs"]} == {"N_layers", "PER_LAYER_THICKNESS"}]
    if ck.thorough:
        pairs += ck.cases("Gen_C04", gen_cfg(3, FOCUS[:8], False), workers=8, n=30000, heap="16g")
    nidn_import()
    obs = pmap(drive, single + multi + pairs)
    ck.validate("Trace_C04", TRACE_CFG, obs, canary=canary)


main("C04", run)
