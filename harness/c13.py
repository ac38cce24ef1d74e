from common import *
import multiprocessing as mp

TRACE_CFG = "INIT Init\nNEXT Next\nPOSTCONDITION Post\n"
GEN = "CONSTANTS Depth = %d Seeds = {1, 2, 3}\nINIT Init\nNEXT Next\nINVARIANTS KeyOfLast ModelKept Fresh\nCONSTRAINT Emit\n"
SEEDS = {1: 100, 2: 7, 3: 0}
INITS = [100, 7, 0, 1, 1100, 100 + 2 ** 16, 2 ** 31 + 100, 2 ** 32 - 1]
MORE = [k for k in range(2, 132) if k not in INITS] + [256, 360, 500, 512, 999, 1000, 1024, 2000, 4096, 9999, 10000, 12345, 65535, 10 ** 6, 10 ** 9]
NV = 5


def settings(v):
    """user settings of variant v"""
    d = dict(N_freq=2, N_layers=2, PER_LAYER_THICKNESS=[0.3], iterations=2, hidden_layers=1, n_neurons=5, learning_rate=0.01,
             seed=SEEDS[1], solver="TRCWA", target_reflectance_spectrum=[0.2, 0.6], target_transmittance_spectrum=[0.7, 0.3],
             physical_wavelength_range=[1e-6, 2.5e-6], FDTD_niter=90, FDTD_pml_thickness=0.7, FDTD_source_position=[0.9, 0.1],
             FDTD_free_space_distance=0.6, real_min_eps=1.0, real_max_eps=6.0)
    d.update([dict(model_type="siren"), dict(model_type="nerf", type="classification", reg_loss_weight=0.3),
              dict(model_type="voxel", PER_LAYER_THICKNESS=[0.3, 0.5]),
              dict(model_type="siren", add_noise=True, noise_scale=0.05, L=2.0),
              dict(model_type="nerf", freq_distribution="log", absorption_loss=True)][v])
    return d


def fresh(v):
    import nidn
    cfg = nidn.load_default_cfg()
    for k, x in settings(v).items():
        cfg[k] = list(x) if isinstance(x, list) else x
    return cfg


RANGES = [[1e-6, 2.5e-6], [0.8e-6, 2.5e-6], [1e-6, 1.9e-6]]
THICK = [None, [0.45]]
LATS = [None, [[0.7, 0.0], [0.0, 0.7]]]


def put(cfg, v, t):
    """change the settings of cfg to those of t, as a user would"""
    base = fresh(v)
    cfg.physical_wavelength_range = list(RANGES[t["range"]])
    cfg.freq_distribution = base.freq_distribution if not t["dist"] else {"linear": "log", "log": "linear"}[base.freq_distribution]
    cfg.N_freq = t["nf"]
    cfg.target_reflectance_spectrum = [0.2, 0.6, 0.4][: t["nf"]]
    cfg.target_transmittance_spectrum = [0.7, 0.3, 0.5][: t["nf"]]
    cfg.PER_LAYER_THICKNESS = THICK[t["thick"]] and list(THICK[t["thick"]]) or list(base.PER_LAYER_THICKNESS)
    cfg.TRCWA_L_grid = [list(r) for r in (LATS[t["lat"]] or base.TRCWA_L_grid)]


def own_model(v):
    """a model supplied by the user"""
    import nidn, torch
    from nidn.training.model.init_network import init_network
    cfg = fresh(v)
    nidn.get_frequency_points(cfg)
    if cfg.type == "classification":
        cfg.out_features = nidn.MaterialCollection(cfg.target_frequencies).N_materials if hasattr(nidn, "MaterialCollection") \
            else __import__("nidn.materials.material_collection", fromlist=["x"]).MaterialCollection(cfg.target_frequencies).N_materials
    else:
        cfg.out_features = 2
    torch.manual_seed(4711)
    m = init_network(cfg)
    return m


def the_eps(v, nf=2):
    import torch
    rnd = random.Random(v)
    e = torch.zeros(1, 1, 2, 3, dtype=torch.complex128)
    for l in range(2):
        for f in range(3):
            e[0, 0, l, f] = complex(rnd.uniform(1.2, 5), rnd.uniform(0, 0.5))
    return e[..., :nf].clone()


def dig(*xs):
    import torch
    h = hashlib.md5()
    for x in xs:
        if isinstance(x, torch.Tensor):
            h.update(str(list(x.shape)).encode() + x.detach().cpu().double().numpy().tobytes())
        elif isinstance(x, (list, tuple)):
            h.update(dig(*x).encode())
        else:
            h.update(repr(x).encode())
    return h.hexdigest()


def do(cfg, op, v):
    """perform one result-producing call, return its digest"""
    import nidn, torch
    if op == "spec":
        r, t = nidn.compute_spectrum(the_eps(v, cfg.N_freq), cfg)
        return dig([torch.as_tensor(x) for x in r], [torch.as_tensor(x) for x in t])
    if op == "freq":
        p, f = nidn.get_frequency_points(cfg)
        return dig(torch.as_tensor(p), torch.as_tensor(f))
    if op == "validate":
        from nidn.utils.validate_config import _validate_config
        _validate_config(cfg)
        return "validated"
    nidn.run_training(cfg)
    return dig([[k, x] for k, x in cfg.model.state_dict().items()], list(cfg.results.loss_log), list(cfg.results.L1_errs),
               list(cfg.results.weighted_average_log))


def reference(a):
    """the same call made alone on a fresh configuration (for a trained model: after its trainings)"""
    v, key = a
    import nidn
    cfg = fresh(v)
    try:
        if key["k"] == "train":
            m = own_model(v) if key["base"] == "own" else None
            for t in key["chain"]:
                cfg = fresh(v)                    # each training on a configuration of its own
                if m is not None:
                    cfg.model = m
                put(cfg, v, t["set"])
                cfg.seed, cfg.solver = SEEDS[t["seed"]], t["solver"]
                r = do(cfg, "train", v)
                m = cfg.model
            return r
        put(cfg, v, dict(key["set"], **key["fr"]))
        nidn.get_frequency_points(cfg)
        if key["k"] == "spec":
            put(cfg, v, key["set"])
        cfg.solver = key["solver"] or cfg.solver
        return do(cfg, key["k"], v)
    except Exception as e:
        return "error " + type(e).__name__


def initial(a):
    """initial parameters of a training without a model: one iteration returns them"""
    v, s = a
    cfg = fresh(v)
    cfg.seed, cfg.iterations = s, 1
    cfg.target_reflectance_spectrum, cfg.target_transmittance_spectrum = [0.0, 0.0], [1.0, 1.0]
    import nidn
    nidn.run_training(cfg)
    return dig([[k, x] for k, x in cfg.model.state_dict().items()])


def initials(a):
    v, ss = a
    return [initial((v, s)) for s in ss]


def session(case):
    import nidn, torch, numpy as np
    v = case["v"]
    cfg = fresh(v)
    now = {"range": 0, "dist": 0, "nf": 2, "thick": 0, "lat": 0}
    put(cfg, v, now)
    want = {k: json.dumps(cfg[k]) for k in cfg.keys()}
    nidn.get_frequency_points(cfg)
    steps = []
    rnd = random.Random(case["n"])
    for o in case["ops"]:
        e = {"op": o["op"], "key": o["key"], "res": "", "ref": ""}

        def act():
            op = o["op"]
            if op == "seed":
                cfg.seed = SEEDS[o["n"]]
                want["seed"] = json.dumps(cfg.seed)
            elif op == "solver":
                cfg.solver = "FDTD" if cfg.solver == "TRCWA" else "TRCWA"
                want["solver"] = json.dumps(cfg.solver)
            elif op in now:
                now[op] = 5 - now[op] if op == "nf" else o["n"] if op == "range" else 1 - now[op]
                put(cfg, v, now)
                want.update({k: json.dumps(cfg[k]) for k in want if k not in ("seed", "solver")})
            elif op == "drop":
                cfg.pop("model", None)
            elif op == "supply":
                cfg.model = own_model(v)
            elif op == "rng":
                k = rnd.randrange(10 ** 6)
                torch.manual_seed(k)
                np.random.seed(k)
                random.seed(k)
                torch.rand(3), np.random.rand(2)
            elif op == "other":
                c2 = fresh((v + 1) % NV)
                c2.PER_LAYER_THICKNESS = c2.PER_LAYER_THICKNESS[:1]
                c2.physical_wavelength_range[0] = 1.1e-6
                c2.solver = cfg.solver
                nidn.get_frequency_points(c2)
                nidn.compute_spectrum(the_eps(v, c2.N_freq) * 1.5, c2)
                c2.PER_LAYER_THICKNESS.append(0.9)
                c2.TRCWA_L_grid[0][0] = 0.9
            else:
                e["res"] = do(cfg, op, v)
        e["out"], _ = outcome(act)
        e["settings"] = all(k in cfg and json.dumps(cfg[k]) == x for k, x in want.items())
        steps.append(e)
    return {"v": v, "steps": steps}


def isolated(fn, items):
    """each item in a process of its own"""
    ctx = mp.get_context("fork")
    with ctx.Pool(NCPU, initializer=quiet, maxtasksperchild=1) as pool:
        return pool.map(fn, items, chunksize=1)


def canary(o):
    for e in o["steps"]:
        if e["key"]["k"] != "none":
            e["res"] = "x"
            return o
    return None


RES = ("spec", "freq", "train")
SET = ("range", "dist", "nf", "thick", "lat")


def features(c, v):
    """what a session exercises: (earlier result, something in between, later result)"""
    f = set()
    ops = c["ops"]
    sv, solver, name = [], "TRCWA", []
    for o in ops:
        sv.append(solver)
        if o["op"] == "solver":
            solver = "FDTD" if solver == "TRCWA" else "TRCWA"
        name.append(o["op"] + (str(o["n"]) if o["op"] in ("seed", "range") else ""))
    cls = "c" if v == 1 else "x" if v == 2 else "r"
    for j, b in enumerate(ops):
        if b["op"] not in RES:
            continue
        sb = sv[j] if b["op"] != "freq" else ""
        for i in range(j):
            f.add((name[i], b["op"], sb))
            if ops[i]["op"] in RES:
                for h in range(i):
                    if ops[h]["op"] in SET:
                        f.add((name[h], ops[i]["op"], b["op"], sb))
            for h in range(i):
                if ops[h]["op"] in RES:
                    sa = sv[h] if ops[h]["op"] != "freq" else ""
                    f.add((ops[h]["op"], sa, name[i], b["op"], sb))
                    if ops[h]["op"] == "train" and b["op"] == "train" and sb == "TRCWA":
                        f.add((cls, name[i]))
    return f


def choose(ck, cs):
    """a sample of the sessions: greedily by new features per cost, then at random"""
    for c in cs:
        c["fd"] = sum((o["key"]["solver"] == "FDTD") + sum(t["solver"] == "FDTD" for t in o["key"]["chain"]) for o in c["ops"])
    cost = lambda c: 1 + 3 * c["fd"] + sum(o["op"] == "train" for o in c["ops"])
    pool = ck.rng.sample(cs, min(len(cs), 24000 if ck.thorough else 6000))
    # the shortest way to a second FDTD result
    pool += [c for c in cs if [o["op"] for o in c["ops"]][:1] == ["solver"] and c["ops"][1]["op"] == "spec" and c["ops"][3]["op"] == "spec"]
    pairs = []
    for i, c in enumerate(pool):
        v = (1, 0, 2, 3, 4, 1)[i % 6]
        if v == 2 and any(o["op"] == "nf" for o in c["ops"]):      # a voxel model has a fixed number of frequencies
            v = 0
        pairs.append((features(c, v), c, v))
    seen, out, budget = set(), [], 3200 if ck.thorough else 760
    # every way to a second FDTD result in four calls
    for c in cs:
        q = [o["op"] for o in c["ops"]]
        if q[:2] == ["solver", "spec"] and q[-1] == "spec" and q[2] in SET + ("other",) and (len(q) == 4 or q[3] == "rng"):
            f = features(c, 0)
            if f - seen:
                seen |= f
                budget -= cost(c)
                out.append((c, len(out) % 2 * 3))
    while pairs and budget > 0:
        best, pairs2 = None, []
        for f, c, v in pairs:
            f = f - seen
            if f:
                pairs2.append((f, c, v))
                q = len(f) / cost(c)
                if best is None or q > best[0]:
                    best = (q, f, c, v)
        if best is None:
            break
        pairs = pairs2
        seen |= best[1]
        budget -= cost(best[2])
        out.append((best[2], best[3]))
    ck.extra["features_covered"] = len(seen)
    ck.extra["features_left"] = len(set().union(*[f for f, _, _ in pairs]) - seen) if pairs else 0
    while budget > 0:
        c = ck.rng.choice(pool)
        v = ck.rng.randrange(NV)
        if v == 2 and any(o["op"] == "nf" for o in c["ops"]):
            continue
        budget -= cost(c)
        out.append((c, v))
    return [dict(c, v=v, n=i) for i, (c, v) in enumerate(out)]


def run(ck):
    nidn_import()
    cs = ck.cases("Gen_C13", GEN % (5 if ck.thorough else 4), workers=4)
    cs = choose(ck, cs)
    refs = {}
    for c in cs:
        for o in c["ops"]:
            if o["key"]["k"] != "none":
                refs[json.dumps([c["v"], o["key"]])] = (c["v"], o["key"])
    keys = sorted(refs, key=lambda x: -x.count("FDTD"))
    got = isolated(reference, [refs[x] for x in keys])
    table = dict(zip(keys, got))
    inits = isolated(initial, [(v, s) for v in range(NV) for s in INITS])
    more = isolated(initials, [(v, MORE[k::3]) for v in range(NV) for k in range(3)])     # many seeds, once for each variant
    more = {v: sum(more[3 * v:3 * v + 3], []) for v in range(NV)}
    cs.sort(key=lambda c: -c["fd"])
    obs = isolated(session, cs)
    for o in obs:
        o["inits"] = inits[len(INITS) * o["v"]:len(INITS) * (o["v"] + 1)] + more.pop(o["v"], [])
        for e in o["steps"]:
            if e["key"]["k"] != "none":
                e["ref"] = table[json.dumps([o["v"], e["key"]])]
    ck.extra["reference_calls"] = len(keys)
    ck.validate("Trace_C13", TRACE_CFG, obs, canary=canary)
    return False


main("C13", run)
