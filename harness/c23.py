import math, cmath
from common import *

TRACE_CFG = "INIT Init\nNEXT Next\nPOSTCONDITION Post\n"
GEN = """CONSTANTS Layers = {%s} Depth = %d Betas = {%s} Tops = {%s} Bots = {%s} N = %d Seed = %d
INIT Init
NEXT Next
INVARIANTS FilmFacts NormalFacts Balance
CONSTRAINT Emit
"""
# media, tangential wave numbers and phases of specs/C23.tla
Q = {1: 1.0, 2: 1.5, 3: 2.0, 4: .5, 5: 1j, 6: .5j, 7: 1.5j, 8: 1 + 1j, 9: 1.5 + .5j}
BETA = {1: 0.0, 2: .5, 3: 1.0, 4: 1.5, 5: 2.0}
EXT = {1: math.atan2(4, 3), 2: math.atan2(12, 5), 3: math.pi / 2, 4: math.atan2(7, 24), 5: math.log(2), 6: math.log(3)}
POL = {1: (1.0, 0.0), 2: (0.0, 1.0), 3: (.6, .8), 4: (.8, .6)}
# code = 1000 q + 100 p + 10 k + j
LAYERS = [1101, 1201, 1302, 2101, 2403, 3201, 3301, 4101, 4401, 4202, 1121, 2241, 4121, 3441, 5501, 6601, 7501, 5602]


def eps_of(q, be):
    return complex(Q[q]) ** 2 + BETA[be] ** 2


def number(x):
    """a real number the solver returned (complex with vanishing imaginary part allowed)"""
    x = complex(x)
    return float("nan") if abs(x.imag) > 1e-6 else x.real


def film(job):
    import torch
    from nidn.trcwa.trcwa import TRCWA
    c, v = job
    be, ls = c["be"], c["layers"]
    o = {"kind": "film", "be": be, "top": c["top"], "bot": c["bot"], "layers": ls, "pol": v["pol"], "tol": 30, "v": v}
    for k in ("R", "T", "top_tz", "top_tt", "top_tc", "bot_tz", "bot_tt", "bot_tc"):
        o[k] = NAN
    f = v["f"] / 100
    phi = v["phi"] * math.pi / 12
    theta = math.atan2(BETA[be], Q[c["top"]])
    cp, sp = math.cos(phi), math.sin(phi)

    def go():
        s = TRCWA(v["NG"], [.9, 0.0], [.2, .7], f, theta, phi, verbose=0)
        s.Add_LayerUniform(.3, torch.tensor(eps_of(c["top"], be)))
        grids = []
        for l in ls:
            d = l["j"] * EXT[l["p"]] / (2 * math.pi * f * abs(Q[l["q"]]))
            if l["k"] > 1:
                along, across, z = Q[l["q"]] ** 2 * l["k"] / (l["k"] - 1), eps_of(l["q"], be), l["k"] * BETA[be] ** 2
                s.Add_LayerGrid(d, 3, 4)
                grids.append((along, across, z) if v["phi"] % 12 == 0 else (across, along, z))
            elif v["grid"]:
                s.Add_LayerGrid(d, 3, 4)
                grids.append((eps_of(l["q"], be),) * 3)
            else:
                s.Add_LayerUniform(d, torch.tensor(eps_of(l["q"], be)))
        s.Add_LayerUniform(.2, torch.tensor(eps_of(c["bot"], be)))
        s.Init_Setup()
        p, a = POL[v["pol"]]
        s.MakeExcitationPlanewave(p, v["pp"], a, v["sp"], order=0)
        if grids:
            s.GridLayer_geteps([torch.cat([torch.full((12,), complex(g[i])) for g in grids]) for i in range(3)])
        return (s.RT_Solve(normalize=1), s.Solve_ZStressTensorIntegral(0), s.Solve_ZStressTensorIntegral(len(ls) + 1))
    o["out"], r = outcome(go)
    if o["out"] == "ok":
        (R, T), t, b = r
        o["R"], o["T"] = fx(number(R)), fx(number(T))
        for n, w in (("top", t), ("bot", b)):
            x, y, z = (number(k) for k in w)
            o[n + "_tz"], o[n + "_tt"], o[n + "_tc"] = fx(z), fx(x * cp + y * sp), fx(y * cp - x * sp)
    return o


PAL = {"real": [1.0, 2.0, 4.0, 6.5], "lossy": [1 + .1j, 2 + 1j, 4 + .5j, 6 + 2j], "metal": [-4 + .5j, 2.25, 1.0 + .2j, -2 + 1j], "one": [1.0, 2.0, 3.0 + .6j, 5.0]}
U = 64.0


def cells_of(c, v, l, part=0):
    """permittivity of a layer on the grid; part > 0: the y, z component of the anisotropic variant"""
    import torch
    pal = PAL[v["pal"]]
    if l["uni"]:
        return torch.full((c["Nx"], c["Ny"]), complex(pal[l["c"][0][0]]))
    return torch.tensor([[complex(pal[(x + part) % 4]) for x in row] for row in l["c"]])


def build(c, v, flip=False, direction="forward", pol=None, scale=1.0, pscale=1.0, triple=False, method=None, mirror=False, turn=0.0):
    """the solver object of a stack, ready to be asked; vectors are given to it at scale/pscale.
    triple: permittivities as three equal components, or (2) three different ones; mirror: x and y interchanged; turn: everything rotated"""
    import torch
    from nidn.trcwa.trcwa import TRCWA
    k = scale / pscale / U
    f = U / c["wl"] / scale
    rot = lambda x, y: [x * math.cos(turn) - y * math.sin(turn), x * math.sin(turn) + y * math.cos(turn)] if turn else [x, y]
    vec = (rot(c["lx"] * k, 0.0), rot(c["sk"] * k, c["ly"] * k)) if not mirror else ([c["ly"] * k, 0.0], [0.0, c["lx"] * k])
    s = TRCWA(v["NG"], *vec, f, v["theta"], math.pi / 2 - v["phi"] if mirror else v["phi"] + turn, verbose=0)
    top, bot = v["top"], v["bot"]
    s.Add_LayerUniform(.3 * scale, torch.tensor(complex(top)))
    ls = list(reversed(c["layers"])) if flip else c["layers"]
    grids = []
    for l in ls:
        pal = PAL[v["pal"]]
        if l["uni"]:
            s.Add_LayerUniform(l["t"] / U * scale, torch.tensor(complex(pal[l["c"][0][0]])))
        else:
            s.Add_LayerGrid(l["t"] / U * scale, *(c["Nx"], c["Ny"])[::-1 if mirror else 1])
            g = [cells_of(c, v, l, q if triple == 2 else 0) for q in range(3)]
            grids.append([x.reshape(-1) for x in ([g[1].T, g[0].T, g[2].T] if mirror else g)])
    s.Add_LayerUniform(.2 * scale, torch.tensor(complex(bot)))
    s.Init_Setup(Pscale=pscale, Gmethod=v["method"] if method is None else method)
    (p, pp), (a, ap) = pol or ((v["p"], v["pp"]), (-v["s"] if mirror else v["s"], v["sp"]))
    s.MakeExcitationPlanewave(p, pp, a, ap, order=0, direction=direction)
    if grids:
        flat = [torch.cat(x) for x in zip(*grids)]
        s.GridLayer_geteps(flat if triple else flat[0])
    return s


def flux(eh):
    (ex, ey, _), (hx, hy, _) = eh
    return number((ex * hy.conj() - ey * hx.conj()).sum().real)


def stack(job):
    import torch
    import numpy as np
    c, v = job
    pal = PAL[v["pal"]]
    o = {"kind": "stack", "lx": c["lx"], "ly": c["ly"], "sk": c["sk"], "wl": c["wl"], "NG": v["NG"], "method": v["method"], "v": v, "cs": c,
         "R": NAN, "T": NAN, "Ro": [], "To": [], "G": [], "flux": [[NAN] * 3], "abs": [NAN], "lossy": [False], "dev": {}}
    be = math.sqrt(v["top"]) * math.sin(v["theta"])
    o["bx"], o["by"] = fx(be * math.cos(v["phi"]), 1000), fx(be * math.sin(v["phi"]), 1000)
    o["etop"], o["ebot"] = fx(v["top"], 1000), fx(v["bot"], 1000)
    S = 10 ** 7

    def go():
        s = build(c, v)
        n = len(c["layers"])
        norm = math.sqrt(v["top"]) / math.cos(v["theta"])
        k0 = 2 * math.pi * U / c["wl"]
        R, T = s.RT_Solve(normalize=1)
        Ro, To = s.RT_Solve(normalize=1, byorder=1)
        G = [tuple(g) for g in s.G.tolist()]
        o["R"], o["T"], o["Ro"], o["To"], o["G"] = fx(number(R), S), fx(number(T), S), [fx(number(x), S) for x in Ro], [fx(number(x), S) for x in To], [list(g) for g in G]
        raw = s.RT_Solve()
        dev = {}
        dev["amp"] = max(abs(number(raw[0]) * norm - number(R)), abs(number(raw[1]) * norm - number(T)))
        ts = [.3] + [l["t"] / U for l in c["layers"]] + [.2]
        mid = v["z"] / 100
        F = [s.Solve_FieldFourier(i, [0.0, t * mid, t]) for i, t in enumerate(ts)]
        # fields at a single offset are those of the list
        one = s.Solve_FieldFourier(1, ts[1] * mid)
        dev["list"] = max((one[0][a][b] - F[1][1][a][b]).abs().max().item() for a in (0, 1) for b in range(3)) + abs(len(one) - 1)
        dev["jump"] = max((F[i][2][a][b] - F[i + 1][0][a][b]).abs().max().item() for i in range(n + 1) for a in (0, 1) for b in (0, 1))
        o["flux"] = [[fx(flux(e) * norm, S) for e in F[i]] for i in range(1, n + 1)]
        # absorbed power and weighted field integrals
        g = torch.tensor(G)
        ab, lossy, wdev, prof, cross, grid = [], [], 0.0, 0.0, 0.0, 0.0
        x, w = np.polynomial.legendre.leggauss(24)
        eye = torch.eye(len(G)) + 0j
        for i, l in enumerate(c["layers"], 1):
            cells = cells_of(c, v, l)
            lossy.append(bool((cells.imag != 0).any()))
            four = torch.fft.fft2(cells) / cells.numel()
            d = g[:, None, :] - g[None, :, :]
            im = torch.fft.fft2(cells.imag + 0j) / cells.numel()
            C = im[d[..., 0] % c["Nx"], d[..., 1] % c["Ny"]]
            ab.append(fx(number(s.Volume_integral(i, C, C, C, normalize=1)) * k0, S))
            val = number(s.Volume_integral(i, eye, .3 * eye, .1 * eye))
            want = 0.0
            for xx, ww in zip(x, w):
                E = s.Solve_FieldFourier(i, [float(ts[i] * (xx + 1) / 2)])[0][0]
                want += ww * ts[i] / 2 * sum(k * (e.abs() ** 2).sum().item() for k, e in zip((1, .3, .1), E))
            wdev = max(wdev, abs(val - want) / max(1.0, want))
            # permittivity reconstructed from the retained orders
            X = torch.arange(c["Nx"])[:, None, None] / c["Nx"]
            Y = torch.arange(c["Ny"])[None, :, None] / c["Ny"]
            wave = torch.exp(2j * math.pi * (X * g[:, 0] + Y * g[:, 1]))
            low = (wave * four[g[:, 0] % c["Nx"], g[:, 1] % c["Ny"]]).sum(-1)
            for comp in ("xx", "yy", "zz"):
                prof = max(prof, (s.Return_eps(i, c["Nx"], c["Ny"], comp) - low).abs().max().item())
            if not l["uni"]:
                for comp in ("xy", "yx"):
                    cross = max(cross, s.Return_eps(i, c["Nx"], c["Ny"], comp).abs().max().item())
            # real-space fields
            eh = s.Solve_FieldOnGrid(i, ts[i] * mid, [c["Nx"], c["Ny"]]) if l["uni"] else s.Solve_FieldOnGrid(i, ts[i] * mid)
            for a in (0, 1):
                for b in range(3):
                    grid = max(grid, ((wave * F[i][1][a][b]).sum(-1) - eh[a][b]).abs().max().item())
        # the normal component of eps E is continuous, too
        kk = lambda e: (s.ky * e[1][0] - s.kx * e[1][1])
        dev["divz"] = max((kk(F[i][2]) - kk(F[i + 1][0])).abs().max().item() / k0 for i in range(n + 1)) + \
            max((F[i][2][1][2] - F[i + 1][0][1][2]).abs().max().item() for i in range(n + 1))
        dev["weights"], dev["profile"], dev["cross"], dev["grid"] = wdev, prof, cross, grid
        o["abs"], o["lossy"] = ab, lossy
        # linear in the amplitudes of the two polarisations
        both = s.GetAmplitudes(0, 0.0)[1]
        pp = build(c, v, pol=((1.0, 0.0), (0.0, 0.0))).GetAmplitudes(0, 0.0)[1]
        ss = build(c, v, pol=((0.0, 0.0), (1.0, 0.0))).GetAmplitudes(0, 0.0)[1]
        dev["linear"] = (both - v["p"] * cmath.exp(1j * v["pp"]) * pp - v["s"] * cmath.exp(1j * v["sp"]) * ss).abs().max().item()
        # incidence from below = incidence from above on the stack turned upside down
        if v["top"] == v["bot"]:
            for pol in (((1.0, 0.0), (0.0, 0.0)), ((0.0, 0.0), (1.0, 0.0))):
                a = build(c, v, pol=pol, direction="backward").RT_Solve(normalize=1)
                b = build(c, v, pol=pol, flip=True).RT_Solve(normalize=1)
                for k, nm in ((0, "flipR"), (1, "flipT")):
                    dev[nm] = max(dev.get(nm, 0.0), abs(number(a[k]) - number(b[k])))
                # and the fields inside: continuous, with the flux of the mirrored stack at every depth
                a, b = (build(c, v, pol=pol, direction=q, flip=q == "forward") for q in ("backward", "forward"))
                FA = [a.Solve_FieldFourier(i, [0.0, t * mid, t]) for i, t in enumerate(ts)]
                tr = [.3] + [l["t"] / U for l in reversed(c["layers"])] + [.2]
                FB = [b.Solve_FieldFourier(i, [t, t * (1 - mid), 0.0]) for i, t in enumerate(tr)]
                dev["backjump"] = max([dev.get("backjump", 0.0)] + [(FA[i][2][q][r] - FA[i + 1][0][q][r]).abs().max().item() for i in range(n + 1) for q in (0, 1) for r in (0, 1)])
                dev["backflux"] = max([dev.get("backflux", 0.0)] + [abs(flux(FA[i][j]) + flux(FB[n + 1 - i][j])) * norm for i in range(1, n + 1) for j in range(3)])
        # all lengths twice as large, the periods through Pscale
        a = build(c, v, scale=2.0, pscale=1.6).RT_Solve(normalize=1)
        dev["pscaleR"], dev["pscaleT"] = abs(number(a[0]) - number(R)), abs(number(a[1]) - number(T))
        # x and y interchanged (rectangular cells): the same powers; the s direction turns round
        if not c["sk"] and c["Nx"] > 6 and c["Ny"] > 6:
            for tr in (False, 2):
                a, b = (build(c, v, mirror=m, triple=tr).RT_Solve(normalize=1) for m in (False, True))
                dev["mirrorR"], dev["mirrorT"] = (max(dev.get("mirror" + n, 0.0), abs(number(a[k]) - number(b[k]))) for k, n in ((0, "R"), (1, "T")))
        # rotated with the plane of incidence
        for tu in (2.0, 5.5):
            a = build(c, v, turn=tu).RT_Solve(normalize=1)
            dev["turnR"], dev["turnT"] = (max(dev.get("turn" + n, 0.0), abs(number(a[k]) - number(x))) for k, n, x in ((0, "R", R), (1, "T", T)))
        # three equal components = isotropic
        if not all(l["uni"] for l in c["layers"]):
            # three different components: each is kept, and the balance holds with them
            a = build(c, v, triple=2)
            conv = lambda x: (torch.fft.fft2(x + 0j) / x.numel())[d[..., 0] % c["Nx"], d[..., 1] % c["Ny"]]
            total = sum(number(x) for x in a.RT_Solve(normalize=1))
            for i, l in enumerate(c["layers"], 1):
                e3 = [cells_of(c, v, l, q) for q in range(3)]
                total += number(a.Volume_integral(i, *(conv(x.imag) for x in e3), normalize=1)) * k0
                for comp, x in zip(("xx", "yy", "zz"), e3):
                    four = torch.fft.fft2(x) / x.numel()
                    low = (wave * four[g[:, 0] % c["Nx"], g[:, 1] % c["Ny"]]).sum(-1)
                    dev["aniso_profile"] = max(dev.get("aniso_profile", 0.0), (a.Return_eps(i, c["Nx"], c["Ny"], comp) - low).abs().max().item())
                # the stress at the top of the layer is that of the fields there
                (ex, ey, ez), (hx, hy, hz) = a.Solve_FieldFourier(i, 0.0)[0]
                dx, dy, dz = (torch.mv(conv(x), y) for x, y in zip(e3, (ex, ey, ez)))
                dot = lambda x, y: (x * y.conj()).sum().real.item()
                want = (dot(ex, dz) + dot(hx, hz), dot(ey, dz) + dot(hy, hz),
                        .5 * (dot(ez, dz) + dot(hz, hz) - dot(ex, dx) - dot(ey, dy) - dot(hx, hx) - dot(hy, hy)))
                got = a.Solve_ZStressTensorIntegral(i)
                dev["stress"] = max([dev.get("stress", 0.0)] + [abs(number(x) - y) / max(1.0, abs(y)) for x, y in zip(got, want)])
            dev["aniso_balance"] = abs(total - 1)
            a = build(c, v, triple=True).RT_Solve(normalize=1)
            dev["isoR"], dev["isoT"] = abs(number(a[0]) - number(R)), abs(number(a[1]) - number(T))
        o["dev"] = {k: fx(x, S) for k, x in dev.items()}
    o["out"], _ = outcome(go)
    o.pop("cs")
    o["cs"] = {k: c[k] for k in ("Nx", "Ny")}
    o["cs"]["layers"] = [[l["t"], l["uni"]] for l in c["layers"]]
    return o


def drive(job):
    return film(job[1:]) if job[0] == "film" else stack(job[1:])


def canary(o):
    if o["out"] != "ok":
        return None
    o["R"] += 1000
    return o


def run(ck):
    nidn_import()
    rng = ck.rng
    s = lambda xs: ",".join(map(str, xs))
    films = ck.cases("Gen_C23", GEN % (s(LAYERS), 1, "1,2,3,4,5", "1,2,3,4", s(range(1, 10)), 1, ck.seed), 1400 if ck.thorough else 420, workers=NCPU)
    films += ck.cases("Gen_C23", GEN % (s(LAYERS), 2, s([3, 4] if not ck.thorough else [2, 3, 4]), s([1, 3]), s([1, 2, 5] if not ck.thorough else [1, 2, 4, 6, 9]), 1, ck.seed),
                      1500 if ck.thorough else 300, workers=NCPU, timeout=800)
    films += ck.cases("Gen_C23", GEN % (s([1101, 2241, 5501, 4401]), 4, "3", "2", "2", 1, ck.seed), 340 if ck.thorough else 60, workers=NCPU)
    films = [c["cs"] for c in films if c["kind"] == "film"]
    stacks = [c["cs"] for c in ck.cases("Gen_C23", GEN % ("1101", 0, "1", "1", "1", 320 if ck.thorough else 64, ck.seed)) if c["kind"] == "stack"]
    jobs = []
    for c in films:
        ani = any(l["k"] > 1 for l in c["layers"])
        # eigenvalues of gridded layers at exactly q^2 = 0 never occur; anisotropic layers are aligned with the axes
        jobs.append(("film", c, {"pol": rng.choice((1, 2, 3, 4)), "phi": rng.choice((0, 6, 12, 18)) if ani else rng.randrange(24),
                                 "f": rng.choice((40, 70, 130)), "NG": rng.choice((1, 1, 7)), "grid": ani or rng.random() < .25,
                                 "pp": rng.choice((0.0, .4)), "sp": rng.choice((0.0, 1.1))}))
    for c in stacks:
        pol = rng.choice(((1.0, 0.0), (0.0, 1.0), (.6, .8)))
        top = rng.choice((1.0, 2.25))
        jobs.append(("stack", c, {"pal": rng.choice(sorted(PAL)), "top": top, "bot": rng.choice((top, top, 1.0, 1.7)), "theta": rng.choice((0.0, .37, .8)),
                                  "phi": rng.choice((0.0, .9, 2.2, -1.3)), "p": pol[0], "s": pol[1], "pp": rng.choice((0.0, .7)), "sp": rng.choice((0.0, -1.9)),
                                  "method": 1 if rng.random() < .25 and c["Nx"] > 6 and c["Ny"] > 6 else 0, "NG": rng.choice((9, 9, 11, 13)), "z": rng.choice((17, 50, 83))}))
        v = jobs[-1][2]
        if v["method"]:
            v["NG"] = rng.choice((9, 16, 20, 24))

    obs = pmap(drive, jobs, chunksize=2)
    ck.extra["films"], ck.extra["stacks"] = len(films), len(stacks)
    ck.validate("Trace_C23", TRACE_CFG, obs, canary=canary)
    ck.assumptions += ["the solver class used directly with real frequencies; tolerances 3e-5 (films) and 3e-5 (power ledger), the solver's pi has single precision",
                       "backward incidence only between equal half-spaces, where the solver's normalisation is defined"]


if __name__ == "__main__":
    main("C23", run)
