import math
from common import *

TRACE_CFG = "INIT Init\nNEXT Next\nPOSTCONDITION Post\n"
GEN = """CONSTANTS Kinds = {%s} Depth = %d Tops = {%s} Bots = {%s} Rand = %d MinLen = %d MaxLen = %d Seed = %d
INIT Init
NEXT Next
INVARIANTS PhysicalStacks ReciprocalStacks
CONSTRAINT Emit
"""
LN2, LN3, PI = math.log(2), math.log(3), math.pi
# real extent (k d n' or k d kappa) of the phases of specs/C10.tla
EXT = {1: math.atan2(4, 3), 2: math.atan2(12, 5), 3: PI / 2, 4: PI, 5: math.atan2(7, 24),
       6: LN2, 7: LN3, 8: PI / 2, 9: PI, 10: 2 * math.atan(.01), 11: math.log(1.02)}
IDX = {1: 1.0, 2: 1.5, 3: 2.0, 4: 3.0, 5: 0.5, 6: 1j, 7: 2j, 8: .5j,
       9: 1 + 1j * LN2 / (PI / 2), 10: 2 * (1 + 1j * LN2 / (PI / 2)), 11: 1 + 1j * LN2 / PI, 12: 1.5 * (1 + 1j * LN2 / PI),
       13: 20.0, 14: 20j}
HALF = {1: 1.0, 2: 2.25, 3: 4.0, 4: -4.0, 5: 9.0, 6: 2.1025, 7: 1.890625}
KINDS = [111, 121, 131, 141, 211, 221, 231, 251, 311, 331, 341, 411, 421, 431, 511, 531, 151, 312, 133,
         661, 671, 761, 861, 981, 1081, 1191, 1291]
KINDS = [1000 * (k // 100) + k % 100 for k in KINDS] + [13101, 13102, 14111]
PLAIN = [1011, 1021, 2011, 2051, 3011, 4021, 5011, 1051]


def thickness(l, f0):
    n = IDX[l["n"]]
    part = n.imag if l["n"] in (6, 7, 8, 14) else complex(n).real
    return l["j"] * EXT[l["p"]] / (2 * PI * f0 * part)


def film(ls, d, f, c):
    """thin-film R, T in floating point; used only to size the allowance for the built-in loss"""
    import cmath
    n0, ns = cmath.sqrt(HALF[c["top"]]), cmath.sqrt(HALF[c["bot"]])
    B, C = 1, ns
    for l, t in zip(reversed(ls), reversed(d)):
        n = complex(IDX[l["n"]])
        ph = 2 * PI * f * n * t
        co, si = cmath.cos(ph), cmath.sin(ph)
        B, C = co * B - 1j * si / n * C, -1j * n * si * B + co * C
    den = abs(n0 * B + C) ** 2
    return abs(n0 * B - C) ** 2 / den, 4 * n0.real * ns.real / den


def drive(job):
    import nidn, torch
    c, v = job
    f0 = v["f0"]
    Nx, Ny = v["grid"]
    ls = c["layers"]
    o = {"layers": ls, "top": c["top"], "bot": c["bot"], "ms": v["ms"], "v": v, "R": [], "T": []}
    o["v"] = {"Nx": Nx, "Ny": Ny, "NG": v["NG"], "f0": fx(f0), "one": v["one"]}
    # deviation of thin-film theory itself under the solver's built-in relative loss (unit 1e-6)
    d = [thickness(l, f0) for l in ls]
    dev = 0.0
    for m in v["ms"]:
        a = film(ls, d, f0 * m, c)
        b = film(ls, d, f0 * m * (1 + 0.5e-5j), c)
        outer = 2 * PI * f0 * m * (abs(HALF[c["top"]]) ** .5 + abs(HALF[c["bot"]]) ** .5)
        dev = max(dev, abs(a[0] - b[0]), abs(a[1] - b[1]), abs(a[0] + a[1] - b[0] - b[1]), 1e-5 * outer)
    o["tol"] = int(50 + 3e6 * dev)

    def go():
        cfg = nidn.load_default_cfg()
        cfg.Nx, cfg.Ny, cfg.N_layers, cfg.N_freq = Nx, Ny, len(ls), len(v["ms"])
        d = [thickness(l, f0) for l in ls]
        cfg.PER_LAYER_THICKNESS = [d[0]] if v["one"] else d
        cfg.TRCWA_NG = v["NG"]
        cfg.TRCWA_TOP_LAYER_EPS = HALF[c["top"]]
        cfg.TRCWA_BOTTOM_LAYER_EPS = HALF[c["bot"]]
        cfg.TRCWA_L_grid = v["lat"]
        cfg.target_frequencies = [f0 * m for m in v["ms"]]
        e = torch.tensor([complex(IDX[l["n"]]) ** 2 for l in ls], dtype=torch.cdouble)
        eps = e.reshape(1, 1, -1, 1).repeat(Nx, Ny, 1, len(v["ms"]))
        R, T = nidn.compute_spectrum(eps, cfg)
        return [fx(x) for x in R], [fx(x) for x in T]
    o["out"], r = outcome(go)
    if o["out"] == "ok":
        o["R"], o["T"] = r
    return o


def canary(o):
    if not o["R"]:
        return None
    o["R"][-1] += 2 * o["tol"] + 100
    return o


def run(ck):
    nidn_import()
    n = 900 if ck.thorough else 260
    gen = lambda kinds, depth, tops, bots, *r, n=None: ck.cases("Gen_C10", GEN % ((",".join(map(str, kinds)), depth, tops, bots) + r + (ck.seed,)), n, workers=NCPU)
    small = gen(KINDS, 1, "1,2,6", "1,3,4,5,7", 1, 1, 1)
    pairs = gen(KINDS if ck.thorough else KINDS[::2] + [13101], 2, "1", "2", 1, 1, 1, n=n)
    big = gen(KINDS, 0, "1", "1", 1200 if ck.thorough else 300, 1, 8 if ck.thorough else 6)
    big += gen(PLAIN, 0, "1", "1", 60 if ck.thorough else 12, 9, 14)
    jobs = []
    lats = ([[0.1, 0.0], [0.0, 0.1]], [[0.2, 0.0], [0.0, 0.1]], [[0.15, 0.0], [0.0, 0.25]])
    for i, c in enumerate(small + pairs + big):
        ms = ck.rng.choice(([1], [1, 2], [1, 2, 3], [2], [3, 1], [2, 2, 1]))
        if len(c["layers"]) > 4:
            ms = ms[:2]
        one = bool(c.get("shared")) or len(c["layers"]) == 1 and ck.rng.random() < .5
        v = {"f0": ck.rng.choice((0.11, 0.25, 0.4, 0.6)), "grid": (1, 1), "NG": ck.rng.choice((11, 11, 1, 6, 20)), "one": one,
             "lat": ck.rng.choice(lats), "ms": ms}
        jobs.append((c, v))
        if i % 4 == 0:           # the same stack, uniform on a grid
            w = dict(v)
            w["grid"] = ck.rng.choice(((4, 4), (3, 3), (5, 4), (3, 6), (8, 8)))
            w["NG"] = ck.rng.choice((1, 2, 6, 11))
            w["lat"] = lats[0]
            jobs.append((c, w))
    obs = pmap(drive, jobs)
    ck.validate("Trace_C10", TRACE_CFG, obs, canary=canary)
    ck.assumptions += ["normal incidence, phases with rational cosine/sine, indices of specs/C10.tla",
                       "deviation allowed: 5e-5 plus three times the change of thin-film theory under the built-in relative loss of 1e-5"]
    ck.extra["solver_runs"] = len(jobs)


if __name__ == "__main__":
    main("C10", run)
