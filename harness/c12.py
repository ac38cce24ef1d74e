from common import *

TRACE_CFG = "INIT Init\nNEXT Next\nPOSTCONDITION Post\n"
GEN = """CONSTANTS Freqs = {%s} Slices = {%s} MaxN = %d MaxFault = %d Solver = "%s" Shapes <- Sh Faults = {%s} Ranges = {%s} Longs = {%s}
INIT Init
NEXT Next
INVARIANT LinesUp
CONSTRAINT Emit
"""
FR = [0.21, 0.37, 0.94, 0.3702, 0.37000001]     # RCWA frequencies, some of them close
RANGES = [[1.0e-6, 2.0e-6], [0.98e-6, 1.02e-6], [1.5e-6, 1.5003e-6]]     # FDTD wavelength ranges
NS = {"TRCWA": 5, "FDTD": 3}                # slices: free space, lossless, lossy; metal, gain


def slice_(shape, s):
    """slice 0 free space, the others pseudo-random permittivities (lossless, lossy, metal)"""
    import torch
    rnd = random.Random("%s %d" % (shape, s))
    nx, ny, nl = shape
    g = torch.ones(nx, ny, nl, dtype=torch.cfloat if False else torch.complex128)
    if s:
        for x in range(nx):
            for y in range(ny):
                for l in range(nl):
                    re, im = [(rnd.uniform(1.5, 9), 0.0), (rnd.uniform(1.5, 5), rnd.uniform(0.1, 1)),
                              (-rnd.uniform(2, 8), rnd.uniform(0.1, 2)), (rnd.uniform(1.5, 5), -rnd.uniform(0.05, 0.3))][s - 1]
                    g[x, y, l] = complex(re, im)
    return g


def make(solver, shape, pairs):
    import nidn, torch
    cfg = nidn.load_default_cfg()
    cfg.solver = solver
    cfg.Nx, cfg.Ny, cfg.N_layers = shape
    cfg.N_freq = len(pairs)
    cfg.PER_LAYER_THICKNESS = [0.3, 0.45][: shape[2]]
    cfg.TRCWA_L_grid = [[0.6, 0.0], [0.0, 0.6]]
    cfg.TRCWA_NG = 9
    cfg.target_reflectance_spectrum = [0.0] * len(pairs)
    cfg.target_transmittance_spectrum = [0.0] * len(pairs)
    if solver == "FDTD":
        cfg.FDTD_niter = 130
        cfg.FDTD_pml_thickness = 0.7
        cfg.FDTD_source_position = [0.9, 0.1]
        cfg.FDTD_free_space_distance = 0.6
    if pairs:
        eps = torch.stack([slice_(shape, p["s"]) for p in pairs], dim=3)
    return cfg, eps


def fdtd_wls(n, w):
    """physical wavelengths of an n-point linear spectrum, first point = longest"""
    LO, HI = RANGES[w]
    f = [1 / HI + (1 / LO - 1 / HI) * i / (n - 1) for i in range(n)] if n > 1 else [1 / HI]
    return [1 / v for v in f]


def val(r, t):
    return [[fx(a, 10 ** 8), fx(b, 10 ** 8)] for a, b in zip(r, t)]


def single(a):
    """response of one point alone"""
    import nidn, torch
    solver, shape, f, s, n, w = a
    cfg, eps = make(solver, shape, [{"f": f, "s": s}])
    if solver == "FDTD":
        wl, LO = fdtd_wls(n, w)[f], RANGES[w][0]
        cfg.physical_wavelength_range = [LO, wl if wl > LO * (1 + 1e-9) else LO * (1 + 1e-9)]
    else:
        cfg.target_frequencies = [FR[f]]
    out, r = outcome(nidn.compute_spectrum, eps, cfg)
    if out != "ok" or len(r[0]) != 1 or len(r[1]) != 1:
        return [NAN, NAN]
    return val(*r)[0]


TABLE = {}


def drive(c):
    import nidn, torch
    n = len(c["pairs"])
    cfg, eps = make(c["solver"], c["shape"], c["pairs"])
    o = {"case": c, "table": TABLE[c["solver"], tuple(c["shape"]), (n, c["range"]) if c["solver"] == "FDTD" else 0]}
    if c["solver"] == "FDTD":
        cfg.physical_wavelength_range = list(RANGES[c["range"]])
    else:
        cfg.target_frequencies = [FR[p["f"]] for p in c["pairs"]]
    k = c["at"]
    if c["fault"] == "nan":
        idx = tuple((k * 7 + j) % m for j, m in enumerate(eps.shape))
        eps[idx] = complex(float("nan"), 0.5) if k % 2 else complex(2.0, float("nan"))
    elif c["fault"] == "zero":
        eps[tuple((k * 7 + j) % m for j, m in enumerate(eps.shape))] = 0
    elif c["fault"] == "shape":
        d, more = k // 2, k % 2
        if more or eps.shape[d] == 1:
            eps = torch.cat([eps, eps.select(d, 0).unsqueeze(d)], dim=d)
        else:
            eps = eps.narrow(d, 0, eps.shape[d] - 1)
    elif c["fault"] == "freqs":
        if k % 3 == 0:
            cfg.pop("target_frequencies")
        elif k % 3 == 1:
            cfg.target_frequencies = cfg.target_frequencies + [0.5]
        else:
            cfg.target_frequencies = cfg.target_frequencies[:-1]
    before = eps.clone()
    o["out"], r = outcome(nidn.compute_spectrum, eps, cfg, validate_cfg=(k % 2 == 0))
    same = (eps == before) | (torch.isnan(eps) & torch.isnan(before))
    o["untouched"] = bool(same.all())
    o["n"], o["val"] = [-1, -1], []
    if o["out"] == "ok":
        o["n"] = [len(r[0]), len(r[1])]
        if o["n"][0] == o["n"][1]:
            o["val"] = val(*r)
    return o


def canary(o):
    if o["out"] == "ok" and len(o["val"]) > 1:
        o["val"][0][0] += 30000
        return o
    return None


def run(ck):
    nidn_import()
    th = ck.thorough
    cs = []

    def gen(shapes, *a):
        mod = "---- MODULE G ----\nEXTENDS Gen_C12\nSh == {%s}\n====\n" % ", ".join("<<%s>>" % ", ".join(map(str, s)) for s in shapes)
        return ck.cases("G", GEN % a, files={"G.tla": mod}, workers=4)
    rshapes = [[1, 1, 1], [1, 1, 2], [3, 3, 1]] + ([[3, 5, 2]] if th else [])
    rc = gen(rshapes, "0, 1, 2, 3, 4", "0, 1, 2, 3, 4", 2, 1, "TRCWA", '"nan", "shape", "freqs", "zero"', "0", "3, 4, 5, 8, 13")
    keep = [c for c in rc if c["fault"] != "none" or len(c["pairs"]) < 2]
    keep = [c for c in keep if c["fault"] == "none"] + ck.rng.sample([c for c in keep if c["fault"] != "none"], 4000 if th else 600)
    rest = [c for c in rc if c["fault"] == "none" and len(c["pairs"]) == 2]
    # neighbours with equal slices, all of them
    same = [c for c in rest if c["pairs"][0]["s"] == c["pairs"][1]["s"]]
    long = [c for c in rc if c["fault"] == "none" and len(c["pairs"]) > 2]
    cs += keep + same + ck.rng.sample(rest, min(len(rest), 3000 if th else 300)) + ck.rng.sample(long, min(len(long), 3000 if th else 60))
    fshapes = [[1, 1, 1], [1, 1, 2]]
    # FDTD needs positive real parts
    fc = gen(fshapes, "0, 1, 2", "0, 1, 2", 3, 1, "FDTD", '"nan"', "0, 1, 2", "5")
    few = [c for c in fc if c["fault"] == "none"]
    broken = [c for c in fc if c["fault"] != "none"]
    cs += ck.rng.sample(broken, min(len(broken), 60))
    for w in range(3):
        x = [c for c in few if c["range"] == w]
        cs += ck.rng.sample(x, min(len(x), len(x) if th else 10))
    jobs, keys = [], {}
    for c in cs:
        n = (len(c["pairs"]), c["range"]) if c["solver"] == "FDTD" else 0
        key = (c["solver"], tuple(c["shape"]), n)
        if key in keys:
            continue
        nf = n[0] if n else len(FR)
        ns = NS[c["solver"]]
        keys[key] = (len(jobs), nf, ns)
        jobs += [(c["solver"], list(c["shape"]), f, s) + (n or (0, 0)) for f in range(nf) for s in range(ns)]
    tab = pmap(single, jobs, chunksize=1)
    for key, (i0, nf, ns) in keys.items():
        TABLE[key] = [[tab[i0 + ns * f + s] for s in range(ns)] for f in range(nf)]
    ck.extra["single_point_responses"] = len(jobs)
    cs.sort(key=lambda c: c["solver"])
    obs = pmap(drive, cs, chunksize=4)
    ck.validate("Trace_C12", TRACE_CFG, obs, canary=canary)
    return False


main("C12", run)
