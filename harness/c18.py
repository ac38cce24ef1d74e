from common import *
import copy

TRACE_CFG = "INIT Init\nNEXT Next\nPOSTCONDITION Post\n"
GEN = """CONSTANTS Seeds = {%s} Kinds = {"%s"}
INIT Init
NEXT Next
INVARIANTS Balance BalanceYee
CONSTRAINT Emit
"""


def trcwa(eps, c, ths, fs):
    import nidn
    cfg = nidn.load_default_cfg()
    cfg.Nx, cfg.Ny, cfg.N_layers, cfg.N_freq = eps.shape
    cfg.PER_LAYER_THICKNESS = ths
    cfg.TRCWA_NG = c["ng"]
    cfg.TRCWA_TOP_LAYER_EPS, cfg.TRCWA_BOTTOM_LAYER_EPS = c.get("top", 100) / 100, c.get("bot", 100) / 100
    cfg.target_frequencies = fs
    return nidn.compute_spectrum(eps, cfg)


def grads(outs, e):
    """gradient of every output frequency with respect to the permittivity grid"""
    import torch
    res = []
    for v in outs:
        g = torch.autograd.grad(v, e, retain_graph=True, allow_unused=True)[0] if v.requires_grad else None
        res.append(torch.zeros_like(e) if g is None else g)
    return res


def cross(g):
    """largest gradient of output k towards an entry of another frequency (NaN sentinel kept)"""
    w = 0
    for k, x in enumerate(g):
        for j in range(x.shape[-1]):
            if j != k:
                y = x[..., j]
                w = max([w] + [fx(a, 1e12) for a in list(y.real.abs().reshape(-1)) + list(y.imag.abs().reshape(-1))])
    return w


def film(c):
    import torch
    ls, nf = c["layers"], len(c["fs"])
    e = torch.tensor([complex(l["a"], l["b"]) ** 2 / 100 for l in ls], dtype=torch.cdouble)
    e = e.reshape(1, 1, -1, 1).repeat(c["nx"], c["ny"], 1, nf).requires_grad_(True)
    R, T = trcwa(e, c, [l["th"] / 100 for l in ls], [f / 1000 for f in c["fs"]])
    gR, gT = grads(R, e), grads(T, e)
    n = c["nx"] * c["ny"]
    g, spread = [], 0
    for k in range(nf):
        row = []
        for j in range(len(ls)):
            r, t = gR[k][:, :, j, k], gT[k][:, :, j, k]
            row.append({"rr": fx(r.real.sum()), "ri": fx(r.imag.sum()), "tr": fx(t.real.sum()), "ti": fx(t.imag.sum())})
            for x in (r.real, r.imag, t.real, t.imag):
                spread = max(spread, fx((x - x.mean()).abs().max() * n))
        g.append(row)
    return {"g": g, "spread": spread, "cross": max(cross(gR), cross(gT))}


def pattern(c):
    import torch
    rng = random.Random(c["seed"])
    nx, ny, nl, nf = c["nx"], c["ny"], c["nl"], c["nf"]
    metal = c["metal"] and not c["lossless"]

    def num():
        if metal and rng.random() < .4:
            return complex(-rng.uniform(1.5, 6), rng.uniform(.2, 1))
        return complex(rng.uniform(1.2, 6), 0 if c["lossless"] else rng.uniform(0.02, .6))
    x = torch.tensor([[[[num() for f in range(nf)] for l in range(nl)] for j in range(ny)] for i in range(nx)], dtype=torch.cdouble)
    s = c["sym"]
    if s in ("x", "xy", "four"):
        x = (x + x.flip(0)) / 2
    if s in ("y", "xy", "four"):
        x = (x + x.flip(1)) / 2
    if s in ("diag", "four") and nx == ny:
        x = (x + x.transpose(0, 1)) / 2
    if s in ("hole", "checker", "stripes"):
        for l in range(nl):
            a, b = num(), num()
            for i in range(nx):
                for j in range(ny):
                    inside = (nx // 4 <= i < nx - nx // 4 and ny // 4 <= j < ny - ny // 4) if s == "hole" else \
                        ((i < nx // 2) == (j < ny // 2)) if s == "checker" else i < nx // 2
                    x[i, j, l, :] = a if inside else b
    if c["flat"] == 1:
        x[:, :, 0] = x[:1, :1, 0]
    if c["flat"] == 2:
        x[:, :, -1] = num()
    if c["seed"] % 7 == 3 and not c["lossless"]:          # nearly perfect mirror: a metal of low loss below transparent layers
        x = x.real + 1e-4j
        x[..., :] = torch.where(x.real < 1, x - x.real + 1.5, x)
        x[:, :, -1] = torch.complex(-8.0 - 4.0 * x[:, :, -1].real, torch.full_like(x[:, :, -1].real, 4e-4))
    return x


def entries(g, f, x0, idx, h):
    """[g, d1, d2] for the sampled entries: gradients g (list of (out, part) -> value) and difference quotients"""
    res = []
    for i in idx:
        for part, z in (("real", 1), ("imag", 1j)):
            q = {}
            for s in (1, 2):
                vals = []
                for sg in (1, -1):
                    p = x0.clone()
                    p[i] += sg * s * h * z
                    vals.append(f(p, i))
                q[s] = [(a - b) / (2 * s * h) for a, b in zip(*vals)]
            for o in range(2):
                res.append((float(getattr(g[o][i[-1]][i], part)), q[1][o], q[2][o]))
    return res


def scaled(res, floor=1e-7):
    big = max([abs(d) for _, d, _ in res if d == d] + [floor])
    sc = 10.0 ** (5 - math.floor(math.log10(big)))
    return [{"g": fx(a, sc), "d1": fx(b, sc), "d2": fx(d, sc)} for a, b, d in res], fx(big, sc), sc


def grid(c):
    import torch
    x = pattern(c)
    fs, ths = [f / 1000 for f in c["fs"][:c["nf"]]], [t / 100 for t in c["ths"][:c["nl"]]]
    e = x.clone().requires_grad_(True)
    R, T = trcwa(e, c, ths, fs)
    gR, gT = grads(R, e), grads(T, e)

    def f(p, i):
        k = i[-1]
        with torch.no_grad():
            r, t = trcwa(p[..., k:k + 1], c, ths, fs[k:k + 1])
        return float(r[0]), float(t[0])
    rng = random.Random(c["seed"] + 1)
    every = [(a, b, l, k) for a in range(c["nx"]) for b in range(c["ny"]) for l in range(c["nl"]) for k in range(c["nf"])]
    es, big, sc = scaled(entries((gR, gT), f, x, rng.sample(every, 4), 1e-4))
    own = lambda g, i: g[i[-1]][i]
    bal = [[fx(own(gR, i).real, sc), fx(own(gT, i).real, sc), fx(own(gR, i).imag + own(gT, i).imag, sc)] for i in every]
    nan = sum(1 for g in gR + gT if not bool(torch.isfinite(torch.view_as_real(g)).all()))
    zero = sum(1 for i in every if complex(own(gR, i)) == 0 and complex(own(gT, i)) == 0)
    return {"es": es, "big": big, "bal": bal, "nan": nan, "zero": zero, "lossless": c["lossless"], "cross": max(cross(gR), cross(gT))}


def fdtd(c):
    import nidn, torch
    S, nf = c["S"], len(c["wls"])

    def spec(e, wls):
        cfg = nidn.load_default_cfg()
        cfg.solver, cfg.Nx, cfg.Ny, cfg.N_layers, cfg.N_freq = "FDTD", 1, 1, e.shape[2], len(wls)
        cfg.PER_LAYER_THICKNESS = [l["cells"] / S for l in c["layers"]]
        cfg.physical_wavelength_range = [(wls[1] if len(wls) > 1 else wls[0] - 100) * 1e-9, wls[0] * 1e-9]
        cfg.FDTD_pml_thickness, cfg.FDTD_free_space_distance = 12 / S, 8 / S
        cfg.FDTD_source_position, cfg.FDTD_source_type = [12 / S, 1 / S], c["source"]
        cfg.FDTD_min_gridpoints_per_unit_magnitude, cfg.FDTD_niter = S, c["niter"]
        cfg.target_reflectance_spectrum = cfg.target_transmittance_spectrum = [.5] * len(wls)
        return nidn.compute_spectrum(e, cfg)
    x = torch.tensor([complex(l["re"], l["im"]) / 100 for l in c["layers"]], dtype=torch.cdouble).reshape(1, 1, -1, 1).repeat(1, 1, 1, nf)
    e = x.clone().requires_grad_(True)
    R, T = spec(e, c["wls"])
    gR, gT = grads(R, e), grads(T, e)
    g = [[{"rr": fx(gR[k][0, 0, j, k].real), "ri": fx(gR[k][0, 0, j, k].imag), "tr": fx(gT[k][0, 0, j, k].real), "ti": fx(gT[k][0, 0, j, k].imag)}
          for j in range(len(c["layers"]))] for k in range(nf)]

    def f(p, i):
        with torch.no_grad():
            r, t = spec(p[..., :1], c["wls"][:1])
        return float(r[0]), float(t[0])
    es, big, _ = scaled(entries((gR, gT), f, x, [(0, 0, len(c["layers"]) - 1, 0)], 1e-4))
    return {"g": g, "rt": [fx(a + b) for a, b in zip(R, T)], "es": es, "big": big, "cross": max(cross(gR), cross(gT))}


def train(c):
    import nidn, torch
    from torch.optim.optimizer import register_optimizer_step_pre_hook
    from nidn.materials.material_collection import MaterialCollection
    rng = random.Random(c["seed"])

    def cfg():
        k = nidn.load_default_cfg()
        k.update(dict(Nx=c["nx"], Ny=c["nx"], N_layers=c["nl"], N_freq=c["nf"], model_type=c["model"], type=c["type"], L=float(c["L"]),
                      absorption_loss=c["absorb"], use_regularization_loss=c["reg"], reg_loss_weight=0.3, learning_rate=1e-2,
                      n_neurons=6, hidden_layers=2 if c["model"] == "siren" else 5, seed=c["seed"], real_min_eps=1.0, real_max_eps=6.0,
                      imag_min_eps=-1.0 if c["gain"] else 0.0, imag_max_eps=-0.2 if c["gain"] else 1.0, PER_LAYER_THICKNESS=[0.3], physical_wavelength_range=[1.5e-6, 3e-6],
                      TRCWA_NG=1 if c["nx"] == 1 else 11, add_noise=c["noise"], noise_scale=0.01,
                      target_reflectance_spectrum=[rng0.random() * .5 for _ in range(c["nf"])],
                      target_transmittance_spectrum=[rng0.random() * .5 for _ in range(c["nf"])]))
        return k
    rng0 = random.Random(c["seed"] + 5)
    first = cfg()
    steps = []

    def hook(opt, *a, **k):
        if model_of[0] is None:
            ps = [p for gr in opt.param_groups for p in gr["params"]]
            steps.append([(p, p.detach().clone(), None if p.grad is None else p.grad.detach().clone()) for p in ps])
    model_of = [None]
    first.iterations = 1
    first.model = nidn.run_training(first).model      # initialised (and trained for one iteration)
    first.iterations = c["iterations"]
    handle = register_optimizer_step_pre_hook(hook)
    try:
        done = nidn.run_training(first)
    finally:
        handle.remove()
    model_of[0] = done.model
    names = {id(p): n for n, p in done.model.named_parameters()}

    def loss(theta):
        nonlocal rng0
        rng0 = random.Random(c["seed"] + 5)
        k = cfg()
        k.iterations = 1
        m = copy.deepcopy(done.model)
        with torch.no_grad():
            for n, p in m.named_parameters():
                p.copy_(theta[n])
        k.model = m
        return nidn.run_training(k).results.loss_log[0]
    out = []
    for st in steps:
        theta = {names[id(p)]: v for p, v, _ in st}
        g = {names[id(p)]: (torch.zeros_like(v) if x is None else x) for p, v, x in st}
        res = []
        for n in theta:
            v = torch.tensor([rng.gauss(0, 1) for _ in range(theta[n].numel())]).reshape(theta[n].shape).to(theta[n].dtype)
            if theta[n].is_complex():
                v = v + 1j * torch.tensor([rng.gauss(0, 1) for _ in range(theta[n].numel())]).reshape(theta[n].shape)
            v = v / v.abs().pow(2).sum().sqrt()
            h = 4e-3
            q = []
            for s in (1, 2):
                ab = []
                for sg in (1, -1):
                    t = dict(theta)
                    t[n] = theta[n] + sg * s * h * v
                    ab.append(loss(t))
                q.append((ab[0] - ab[1]) / (2 * s * h))
            res.append((float((g[n].conj() * v).real.sum()), q[0], q[1]))
        es, big, _ = scaled(res, 1e-4)
        out.append({"es": es, "big": big, "nan": sum(1 for x in g.values() if not bool(torch.isfinite(torch.view_as_real(x) if x.is_complex() else x).all()))})
    return {"steps": out, "iterations": c["iterations"]}


def one(c):
    o = {"kind": c["kind"], "case": c}
    try:
        o.update({"film": film, "grid": grid, "fdtd": fdtd, "train": train}[c["kind"]](c))
        o["out"] = "ok"
    except Exception as e:
        o["out"] = type(e).__name__ + ": " + str(e)[:100]
        if os.environ.get("DEBUG"):
            traceback.print_exc()
    return o


def canary(o):
    if o["out"] != "ok":
        return None
    if o["kind"] == "film":
        o["g"][0][0]["rr"] += 20000 + abs(o["g"][0][0]["rr"]) // 10
        return o
    if o["kind"] == "grid":
        o["cross"] = 7
        return o


def run(ck):
    base = 100000 * (ck.seed % 50)
    nidn_import()
    ns = {"fdtd": (6, 48), "train": (40, 260), "grid": (64, 500), "film": (44, 500)}
    if os.environ.get("KINDS"):
        ns = {k: v for k, v in ns.items() if k in os.environ["KINDS"]}
    from concurrent.futures import ThreadPoolExecutor
    jobs = []
    for k, n in ns.items():
        n = n[ck.thorough]
        per = -(-n // 4)
        jobs += [(k, range(base + i, base + min(i + per, n))) for i in range(0, n, per)]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: ck.cases("Gen_C18", GEN % (", ".join(map(str, j[1])), j[0]), heap="2g"), jobs))
    cs = sorted((c for r in res for c in r), key=lambda c: ["fdtd", "train", "grid", "film"].index(c["kind"]))
    obs = pmap(one, cs, chunksize=1)
    rng = random.Random(3)
    rng.shuffle(obs)
    ck.validate("Trace_C18", TRACE_CFG, obs, canary=canary)
    for k in ns:
        ck.extra[k + "_cases"] = sum(1 for o in obs if o["kind"] == k)
    ck.extra["difference_quotients"] = sum(len(o.get("es", [])) + sum(len(s["es"]) for s in o.get("steps", [])) for o in obs)
    ck.extra["smooth_quotients"] = sum(abs(e["d1"] - e["d2"]) <= 20 + o["big"] // 500 for o in obs for e in o.get("es", [])) + \
        sum(abs(e["d1"] - e["d2"]) <= 20 + s["big"] // 500 for o in obs for s in o.get("steps", []) for e in s["es"])


if __name__ == "__main__":
    main("C18", run)
