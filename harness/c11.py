from common import *

TRACE_CFG = "INIT Init\nNEXT Next\nPOSTCONDITION Post\n"
GEN = """CONSTANTS N = %d Depth = %d Seed = %d NCodes = 4 Ops = {"shift","mirx","miry","split","scale","repx","repy","supx","supy","perx","pery","shear1","shear2","turn"}
INIT Init
NEXT Next
INVARIANTS Content0 Ratios0 Undo SameLattice
CONSTRAINT Emit
"""
PAL = {"real": [1.0, 2.0, 4.0, 6.5], "lossy": [1 + .1j, 2 + 1j, 4 + .5j, 6 + 2j], "metal": [-4 + .5j, 2.25, 1.0 + .2j, -2 + 1j],
       "index": [1.0, 12.0, 2.0, 9.0], "negreal": [1.03, 3.0, -5.31, 2.1]}


def solve(s, pal, v, eps=None):
    import nidn, torch
    U = 64.0
    cfg = nidn.load_default_cfg()
    cfg.Nx, cfg.Ny = s["Nx"], s["Ny"]
    cfg.N_layers, cfg.N_freq = len(s["layers"]), 1
    cfg.PER_LAYER_THICKNESS = [l["t"] / U for l in s["layers"]]
    vec = lambda b: [(b[0] * s["lx"] + b[1] * s["sk"]) / U, b[1] * s["ly"] / U]
    cfg.TRCWA_L_grid = [vec(s["b"][0]), vec(s["b"][1])]
    cfg.TRCWA_NG = v["NG"]
    cfg.TRCWA_TOP_LAYER_EPS, cfg.TRCWA_BOTTOM_LAYER_EPS = v["top"], v["bot"]
    cfg.target_frequencies = [U / s["wl"]]
    if eps is None:
        e = torch.tensor([[[pal[l["c"][x][y]] for l in s["layers"]] for y in range(s["Ny"])] for x in range(s["Nx"])], dtype=torch.cdouble)
    else:
        e = torch.tensor(eps, dtype=torch.cdouble).reshape(1, 1, -1)
        cfg.Nx = cfg.Ny = 1
    R, T = nidn.compute_spectrum(e.unsqueeze(-1), cfg)
    return fx(R[0], 10 ** 7), fx(T[0], 10 ** 7)


def drive(job):
    base, variants, v = job
    pal = PAL[v["pal"]]
    o = dict(base)
    o["v"] = v
    o["lossless"] = v["pal"] in ("real", "index", "negreal")
    o["nmax"] = int(max(abs(x) for x in pal) ** .5 * 10 + 1)
    o["zeroth"] = v["NG"] <= 3
    o["out"], r = outcome(solve, base, pal, v)
    o["R"], o["T"] = r or (NAN, NAN)
    o["vars"] = []
    for ops, s in variants:
        w = {"ops": ops, "s": s, "ng": v["NG"] if v["NG"] <= 3 else (v["NG"] - 2) * s["sup"] + 2}
        w["out"], r = outcome(solve, s, pal, dict(v, NG=w["ng"]))
        w["R"], w["T"] = r or (NAN, NAN)
        o["vars"].append(w)
    sums = [sum(pal[c] for row in l["c"] for c in row) for l in base["layers"]]
    o["sums"] = [[fx(complex(x).real, 100), fx(complex(x).imag, 100)] for x in sums]
    if o["zeroth"]:
        n = base["Nx"] * base["Ny"]
        m = {"sums": o["sums"]}
        m["out"], r = outcome(solve, base, pal, v, [complex(x) / n for x in sums])
        m["R"], m["T"] = r or (NAN, NAN)
        o["mean"] = m
    else:
        o["mean"] = {"sums": [], "out": "none", "R": 0, "T": 0}
    return o


def canary(o):
    if not o["vars"] or o["vars"][0]["out"] != "ok":
        return None
    o["vars"][0]["T"] += 5000
    return o


def run(ck):
    nidn_import()
    N = 260 if ck.thorough else 78
    em = ck.model("Gen_C11", GEN % (N, 2, ck.seed), workers=NCPU, timeout=800)
    by = {}
    for e in em:
        by.setdefault(e["id"], []).append((e["ops"], e["s"]))
    jobs = []
    for i in sorted(by):
        vs = sorted(by[i], key=lambda x: (len(x[0]), json.dumps(x[0])))
        base = vs[0][1]
        ones = [x for x in vs if len(x[0]) == 1]
        twos = [x for x in vs if len(x[0]) == 2]
        k = 16 if ck.thorough else 3
        sq = base["sk"] == 0 and base["lx"] == base["ly"] and base["Nx"] >= 3 and base["Ny"] >= 3
        all1, all2 = ones, twos
        for ng in ((1, 11) if ck.thorough else (ck.rng.choice((1, 2, 3)), ck.rng.choice((6, 11)))):
            if ng == 11 and not sq:
                ng = 6
            v = {"NG": ng, "pal": ck.rng.choice(sorted(PAL)), "top": ck.rng.choice((1.0, 1.0, 2.25)), "bot": ck.rng.choice((1.0, 2.25, 4.0))}
            if v["pal"] == "negreal" and ng > 3:
                v["pal"] = "real"
            # the retained orders must fit the grid in the new basis as well
            sheared = lambda x: sum(o["op"].startswith("shear") for o in x[0])
            fits = lambda x: ng <= 3 or not sheared(x) or sheared(x) == 1 and (base["Nx"] >= 6 or ng == 6 and base["sk"] == 0 and base["lx"] == base["ly"])
            ones, twos = [x for x in all1 if fits(x)], [x for x in all2 if fits(x)]
            pick = ones + ck.rng.sample(twos, min(k, len(twos)))
            if ng <= 3 and not ck.thorough:
                pick = ck.rng.sample(pick, min(4, len(pick)))
            jobs.append((base, pick, v))
    ck.rng.shuffle(jobs)
    obs = pmap(drive, jobs, chunksize=1)
    ck.extra["solver_runs"] = sum(1 + len(o["vars"]) for o in obs)
    ck.validate("Trace_C11", TRACE_CFG, obs, canary=canary)
    ck.assumptions += ["rectangular lattices with grids fine enough for the retained orders; normal incidence",
                       "tolerance 1e-5 (3e-4 when all lengths are scaled, because of the built-in loss)"]


if __name__ == "__main__":
    main("C11", run)
