from common import *
TRACE_CFG = "INIT Init\nNEXT Next\nPOSTCONDITION Post\n"
GEN = """CONSTANTS Sizes = {%s} As = {%s} Rs = {%s} Cs = {%s}
INIT Init
NEXT Next
INVARIANTS SquareSymmetric CircleSymmetric Monotone
CONSTRAINT Emit
"""


def drive(c):
    import nidn, torch
    U = 64.0
    cfg = nidn.load_default_cfg()
    cfg.Nx, cfg.Ny, cfg.N_freq = c["nx"], c["ny"], c["nf"]
    cfg.physical_wavelength_range = [2e-6, 8e-6]
    nidn.get_frequency_points(cfg)
    before = {k: repr(cfg[k]) for k in cfg.keys()}
    ref = nidn.MaterialCollection(cfg.target_frequencies)
    table = {n: ref.epsilon_matrix[i].reshape(-1).clone() for i, n in enumerate(ref.material_names)}
    o = {"nx": c["nx"], "ny": c["ny"], "nf": c["nf"], "names": list(ref.material_names), "builds": c["builds"], "results": []}
    oc, lb = outcome(nidn.LayerBuilder, cfg)
    kept = []
    for k, b in enumerate(c["builds"]):
        r = {"outcome": oc, "shape": [], "cells": []}
        if oc == "ok":
            if b["op"] == "uniform":
                r["outcome"], e = outcome(lb.build_uniform_layer, b["g"])
            elif b["op"] == "square":
                r["outcome"], e = outcome(lb.build_squared_layer, b["g"], b["s"], a=b["a"] / U)
            else:
                kw = dict(radius=b["r"] / U)
                if (b["cx"], b["cy"]) != (32, 32):
                    kw.update(x_center=b["cx"] / U, y_center=b["cy"] / U)
                r["outcome"], e = outcome(lb.build_circle_layer, b["g"], b["s"], **kw)
            if r["outcome"] == "ok":
                r["shape"] = [int(v) for v in e.shape]
                kept.append((r, e))
                if len(r["shape"]) == 3 and k % 2 == 1:
                    # judge every second layer at once, then scribble over it: later builds must not care
                    judge(r, e, table)
                    e[...] = 123.0 + 4.0j
        o["results"].append(r)
    for r, e in kept:                   # the others at the end: later builds must not have changed them
        if not r["cells"] and len(r["shape"]) == 3:
            judge(r, e, table)
    o["touched"] = {k: repr(cfg[k]) for k in cfg.keys()} != before
    return o


def judge(r, e, table):
    import torch
    out = []
    for i in range(e.shape[0]):
        row = []
        for j in range(e.shape[1]):
            name = "?"
            for n, v in table.items():
                if v.shape == e[i, j].shape and bool(torch.all(torch.abs(e[i, j] - v) < 1e-9)):
                    name = n
                    break
            row.append(name)
        out.append(row)
    r["cells"] = out


def canary(o):
    for r in o["results"]:
        if r["cells"]:
            r["cells"][-1][-1] = "?"
            return o
    return None


def run(ck):
    if ck.thorough:
        cs = ck.cases("Gen_C07", GEN % ("1, 2, 3, 4, 5, 6, 7, 9, 17", "0, 4, 8, 13, 16, 21, 27, 31, 32, 33, 45, 64, 80", "4, 10, 16, 21, 24, 30, 32, 48, 100", "16, 27, 32, 48"), workers=8, n=20000)
    else:
        cs = ck.cases("Gen_C07", GEN % ("1, 2, 3, 4, 5, 6, 9", "0, 8, 13, 16, 21, 27, 32, 40, 64", "0, 8, 16, 21, 24, 32, 100", "16, 32, 40"), workers=8, n=3000)
    names = ["germanium", "zinc_oxide", "aluminium_oxide", "titanium_oxide", "silicon_nitride", "gallium_arsenide"]
    groups = {}
    for c in cs:
        groups.setdefault((c["nx"], c["ny"]), []).append(c["b"])
    hist = []
    for (nx, ny), bs in sorted(groups.items()):
        ck.rng.shuffle(bs)
        i = 0
        while i < len(bs):
            n = ck.rng.randrange(1, 5)
            builds = []
            for b in bs[i:i + n]:
                g, s = ck.rng.sample(names, 2)
                if ck.rng.random() < 0.05:
                    g = "unobtainium"
                elif ck.rng.random() < 0.05:
                    s = "unobtainium"
                builds.append(dict(b, g=g, s=s))
            i += n
            # the same kinds of layer again, and uniform layers in between
            for b in list(builds):
                if ck.rng.random() < 0.4:
                    builds.append(dict(b, g=ck.rng.choice(names)))
                if ck.rng.random() < 0.4:
                    builds.append(dict(b, op="uniform", g=ck.rng.choice(names)))
            ck.rng.shuffle(builds)
            hist.append({"nx": nx, "ny": ny, "nf": 1 + len(hist) % 3, "builds": builds})
    nidn_import()
    obs = pmap(drive, hist)
    ck.validate("Trace_C07", TRACE_CFG, obs, canary=canary)


main("C07", run)
