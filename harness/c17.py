from common import *

TRACE_CFG = "INIT Init\nNEXT Next\nPOSTCONDITION Post\n"
GEN = """CONSTANTS Seeds = {%s}
INIT Init
NEXT Next
INVARIANTS Converges Energy Recip
CONSTRAINT Emit
"""


def spectrum(c, layers):
    import nidn, torch
    S = c["S"]
    cfg = nidn.load_default_cfg()
    cfg.solver = "FDTD"
    cfg.Nx = cfg.Ny = 1
    cfg.N_layers, cfg.N_freq = len(layers), c["nf"]
    th = [l["cells"] / S for l in layers]
    cfg.PER_LAYER_THICKNESS = th[:1] if c.get("shared") and len(set(th)) == 1 else th
    cfg.physical_wavelength_range = [c["lmin"] * 1e-9, c["lmax"] * 1e-9]
    cfg.FDTD_pml_thickness, cfg.FDTD_free_space_distance = c["pml"] / S, c["free"] / S
    cfg.FDTD_source_position = [c["srcx"] / S, (c["srcy"] + 1) / S]
    cfg.FDTD_source_type = c["source"]
    cfg.FDTD_pulse_type = c.get("pulse", "continuous")
    cfg.FDTD_gridpoints_from_material_to_detector = c["det"]
    cfg.FDTD_min_gridpoints_per_unit_magnitude = S
    cfg.FDTD_niter = c["niter"]
    cfg.target_reflectance_spectrum = [0.5] * c["nf"]
    cfg.target_transmittance_spectrum = [0.5] * c["nf"]
    eps = torch.zeros(1, 1, len(layers), c["nf"], dtype=torch.complex128)
    for i, l in enumerate(layers):
        eps[:, :, i] = complex(l["a"], l["b"]) ** 2 / 100
    with torch.no_grad():
        r, t = nidn.compute_spectrum(eps, cfg)
    return [fx(v) for v in r], [fx(v) for v in t]


def one(job):
    """job: (case number, kind, case)"""
    k, kind, c = job
    ls = c["layers"]
    if kind == "split":
        j = k % len(ls)
        h = max(1, ls[j]["cells"] // 2 if k % 2 else 1)
        ls = ls[:j] + [dict(ls[j], cells=h), dict(ls[j], cells=ls[j]["cells"] - h)] + ls[j + 1:]
    elif kind == "reverse":
        ls = ls[::-1]
    try:
        r, t = spectrum(c, ls)
        return k, kind, "ok", r, t
    except Exception as e:
        return k, kind, type(e).__name__ + ": " + str(e)[:100], [], []


def canary(o):
    if o["out"] == "ok" and "pulse" not in o["case"] and o["t"]:
        o["t"][0] += 120000
        return o


# the two pulsed waveforms (known finding): one fixed case each
PULSE = [dict(S=16, pml=12, free=8, det=2, layers=[dict(a=20, b=0, cells=8)], lmin=787, lmax=1048, nf=1,
              source="line", srcx=13, srcy=16, niter=450, pulse=p) for p in ("hanning", "ricker")]


def run(ck):
    base = 100000 * (ck.seed % 50)
    n = 700 if ck.thorough else 48
    from concurrent.futures import ThreadPoolExecutor
    per = -(-n // 8)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda i: ck.cases("Gen_C17", GEN % ", ".join(map(str, range(base + i, base + min(i + per, n)))), heap="2g"),
                          range(0, n, per)))
    cs = [c for r in res for c in r]
    nidn_import()
    jobs = []
    for k, c in enumerate(cs + PULSE):
        jobs.append((k, "base", c))
        if "pulse" in c:
            continue
        if k % 4 == 0 and any(l["cells"] > 1 for l in c["layers"]):
            jobs.append((k, "split", c))
        if k % 4 == 1 and len(c["layers"]) > 1 and all(l["b"] == 0 for l in c["layers"]):
            jobs.append((k, "reverse", c))
    jobs.sort(key=lambda j: -j[2]["niter"] * j[2]["nf"])
    out = pmap(one, jobs, chunksize=1)
    obs = {}
    for k, kind, st, r, t in out:
        if kind == "base":
            obs[k] = {"case": (cs + PULSE)[k], "out": st, "r": r, "t": t, "var": []}
            if "pulse" in obs[k]["case"] and st == "ok":
                obs[k]["id"] = "pulse-" + obs[k]["case"]["pulse"]
    for k, kind, st, r, t in out:
        if kind != "base":
            if st == "ok":
                obs[k]["var"].append({"kind": kind, "r": r, "t": t})
            else:
                obs[k]["out"] = kind + " " + st
    ck.validate("Trace_C17", TRACE_CFG, [obs[k] for k in sorted(obs)], canary=canary)
    ck.extra["simulated_frequencies"] = sum(len(o[3]) for o in out)
    return False


main("C17", run)
