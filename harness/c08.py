from common import *
TRACE_CFG = "INIT Init\nNEXT Next\nPOSTCONDITION Post\n"
GEN = """CONSTANTS Shapes = {%s} Seeds = {%s}
INIT Init
NEXT Next
INVARIANTS Ranged AwayFromZero BlockConstant
CONSTRAINT Emit
"""
UNITS = 6400


def grid_model(out_of, width):
    """network that identifies every queried point by the rank of its coordinates"""
    import torch

    class M(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.p = torch.nn.Parameter(torch.zeros(1))

            self.seen = None

        def forward(self, x):
            rows = [[round(float(v), 7) for v in p] for p in x]
            if self.seen is not None and self.asking:
                for p in rows:
                    for k, v in enumerate(p):
                        self.seen[k].add(v)
                return torch.zeros((len(rows), width), dtype=torch.float64) + 0.0 * self.p
            cols = [sorted(v) for v in self.seen] if self.seen is not None else [sorted(set(v)) for v in zip(*rows)]
            self.at = cols
            rank = [{v: i for i, v in enumerate(c)} for c in cols]
            return torch.tensor([out_of(*[rank[k][v] for k, v in enumerate(p)]) for p in rows], dtype=torch.float64) + 0.0 * self.p

        def ask(self, go):
            """a first evaluation tells the coordinates of the whole grid, in however many calls it comes"""
            self.seen, self.asking = [set() for _ in range(4)], True
            go()
            self.asking = False
            if not all(self.seen):
                self.seen = None

    return M()


def voxel_model(t):
    import torch

    class V(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.weights = torch.nn.Parameter(t)

        def forward(self):
            return self.weights
    return V()


def thicknesses(c):
    nl, k = c["nl"], (c["seed"] + c["nx"] + c["ny"] + c["nf"]) % 4
    return [[1.0], [0.25 * (1 + (i * 5) % 3) for i in range(nl)], [(1.0, 0.01, 0.02, 5.0, 0.01)[i % 5] for i in range(nl)],
            [(0.002, 3.0, 0.004, 0.003, 7.0)[i % 5] for i in range(nl)]][k]


def make_cfg(c):
    import nidn
    cfg = nidn.load_default_cfg()
    cfg.update(dict(model_type=c["model"], type="regression", Nx=c["nx"], Ny=c["ny"], N_layers=c["nl"], N_freq=c["nf"],
                    eps_oversampling=c["os"], real_min_eps=c["rmin"] / 100.0, real_max_eps=c["rmax"] / 100.0,
                    imag_min_eps=c["imin"] / 100.0, imag_max_eps=c["imax"] / 100.0, avoid_zero_eps=c["avoid"],
                    add_noise=c["noise"], noise_scale=c["ns"] / 1000.0, physical_wavelength_range=[2e-6, 9e-6] if (c["seed"] + c["nl"]) % 3 else [0.4e-6, 30e-6],
                    freq_distribution="log" if c["log"] else "linear",
                    PER_LAYER_THICKNESS=thicknesses(c)))
    if c["nl"] == 1:
        cfg.PER_LAYER_THICKNESS = [1.0]
    nidn.get_frequency_points(cfg)
    return cfg


def drive(c):
    import nidn, torch
    cfg = make_cfg(c)
    if c["model"] == "voxel":
        unit = (20 if c["rmax"] - c["rmin"] < 10 else 400) / UNITS
        w = torch.zeros((c["nx"], c["ny"], c["nl"], c["nf"]), dtype=torch.cfloat)
        for i in range(c["nx"]):
            for j in range(c["ny"]):
                for l in range(c["nl"]):
                    for f in range(c["nf"]):
                        v = [((17 * i + 23 * j + 31 * l + 41 * f + 5 * k + c["seed"]) % 97) - 40 for k in (0, 1)]
                        w[i, j, l, f] = complex(v[0] * unit, v[1] * unit)
        model = voxel_model(w)
    else:
        model = grid_model(lambda bi, bj, l, f: [
            (((7 * bi + 13 * bj + 29 * l + 37 * f + 11 * k + c["seed"]) % c["span"]) + c["olo"]) / 16.0 for k in (0, 1)], 2)
        model.ask(lambda: outcome(nidn.model_to_eps_grid, model, cfg))
    torch.manual_seed(c["seed"])
    o = {"case": c, "shape": [], "eps": [], "material_ids": "none", "at": [],
         "thick": [round(t * 1000) for t in cfg.PER_LAYER_THICKNESS],
         "fr": [round(float(f / max(cfg.target_frequencies)) * 10000) for f in cfg.target_frequencies]}
    o["outcome"], r = outcome(nidn.model_to_eps_grid, model, cfg)
    if o["outcome"] == "ok":
        eps, ids = r
        if c["model"] != "voxel":
            o["at"] = [[fx(v, 10 if k == 2 else 10000) for v in col] for k, col in enumerate(model.at)]
        o["material_ids"] = "none" if ids is None else "some"
        o["shape"] = [int(v) for v in eps.shape]
        if eps.ndim == 4:
            re, im = eps.real.detach().tolist(), eps.imag.detach().tolist()
            o["eps"] = [[[[[fx(re[i][j][l][f], UNITS), fx(im[i][j][l][f], UNITS)] for f in range(eps.shape[3])]
                          for l in range(eps.shape[2])] for j in range(eps.shape[1])] for i in range(eps.shape[0])]
    return o


def canary(o):
    if o["eps"] and not o["case"]["noise"]:
        o["eps"][-1][-1][-1][-1][1] += 7
        return o
    return None


def run(ck):
    sh = [11111, 21121, 12212, 23121, 31331, 22131, 11252, 13321, 12421, 11531, 11921, 11191, 91111, 19212]
    if ck.thorough:
        sh += [33212, 22223, 44111, 15331]
    cs = ck.cases("Gen_C08", GEN % (", ".join(map(str, sh)), "0, 5, 8" if not ck.thorough else "0, 3, 5, 8, 10"), workers=8,
                  n=12000 if ck.thorough else 2500)
    nidn_import()
    obs = pmap(drive, cs)
    ck.validate("Trace_C08", TRACE_CFG, obs, canary=canary)


if __name__ == "__main__":
    main("C08", run)
