from common import *
import csv, glob

TRACE_CFG = "INIT Init\nNEXT Next\nPOSTCONDITION Post\n"
GEN = "CONSTANT Stride = %d\nINIT Init\nNEXT Next\nINVARIANTS NearestOk %s\nCONSTRAINT Emit\n"


def tables():
    res = []
    for f in sorted(glob.glob(REPO + "/nidn/materials/data/*.csv")):
        rows = list(csv.reader(open(f), delimiter="\t"))
        h = rows[0]
        iw, i_n, ik = h.index("Wavelength"), h.index("n"), h.index("k")
        rows = [r for r in rows[1:] if r]
        res.append({"name": os.path.basename(f)[:-4], "w": [round(float(r[iw]) * 1e7) for r in rows],
                    "n": [round(float(r[i_n]) * 1e6) for r in rows], "k": [round(float(r[ik]) * 1e6) for r in rows]})
    return res


def cx(z):
    z = complex(z)
    return [fx(z.real, 10 ** 5), fx(z.imag, 10 ** 5)]


def drive(c):
    import nidn, torch, numpy as np
    from dotmap import DotMap
    ws = c["w"]
    freqs = [1.0 / (w * 1e-7) for w in ws]
    if c["np"]:
        freqs = np.array(freqs)
    o = {"kind": c["kind"], "w": ws, "skip": c["skip"] or []}
    if c["kind"] == "coll":
        args = (freqs,) if c["skip"] is None else (freqs, c["skip"])
        o["outcome"], mc = outcome(nidn.MaterialCollection, *args)
        o.update(names=[], nmat=0, shape=[], eps=[], rows=[])
        if o["outcome"] == "ok":
            o["names"] = list(mc.material_names)
            o["nmat"] = int(mc.N_materials)
            o["shape"] = [int(v) for v in mc.epsilon_matrix.shape]
            if len(o["shape"]) == 2:
                o["eps"] = [[cx(v) for v in row] for row in mc.epsilon_matrix]
            for name in c["lookup"]:
                oc, row = outcome(lambda: mc[name])
                ok = oc == "ok" and row.ndim == 1
                o["rows"].append({"name": name, "outcome": oc, "eps": [cx(v) for v in row] if ok else []})
    else:
        from nidn.materials.find_closest_material import _find_closest_material
        nx, ny, nl = c["shape"]
        n = nx * ny * nl
        pts = [c["pts"][i % len(c["pts"])] for i in range(n)]
        nf = len(ws)
        o["names"] = []
        o["points"] = []

        def go():
            mc = nidn.MaterialCollection(freqs, c["skip"] or None)
            o["names"] = list(mc.material_names)
            cfg = DotMap(Nx=nx, Ny=ny, N_layers=nl, N_freq=nf)
            vals = []
            for p in pts:
                if p["on"] is not None:           # exactly a material
                    row = mc.epsilon_matrix[p["on"] % len(o["names"])].reshape(-1)
                    vals.append([complex(v) for v in row])
                else:
                    vals.append([complex(p["re"] + f * p["d"], p["im"]) for f in range(nf)])
            eps = torch.tensor(vals, dtype=torch.cdouble).reshape(nx, ny, nl, nf)
            dist, idx = _find_closest_material(eps, cfg, mc)
            dist, idx = dist.reshape(-1), idx.reshape(-1)
            assert len(dist) == n and len(idx) == n
            for i in range(n):
                o["points"].append({"eps": [[fx(z.real, 100), fx(z.imag, 100)] for z in vals[i]],
                                    "idx": int(idx[i]) + 1, "dist": fx(dist[i], 100)})
        o["outcome"], _ = outcome(go)
    return o


def session(cs):
    return [drive(c) for c in cs]


def canary(o):
    if o["kind"] == "coll" and o["eps"]:
        o["eps"][0][0][0] += 20
        return o
    if o["kind"] == "closest" and o["points"]:
        o["points"][0]["dist"] += 50
        return o
    return None


def run(ck):
    tabs = tables()
    files = {"tables.json": json.dumps(tabs)}
    names = [t["name"] for t in tabs]
    qs = ck.cases("Gen_C06", GEN % ((3, "Minimal") if ck.thorough else (13, "")), files=files, workers=8)
    ck.rng.shuffle(qs)
    qs = [q["w"] for q in qs]
    rng = ck.rng
    cs, i = [], 0
    skips = [None, [], [names[0]], [names[-1], names[3]], names[1:], [n for n in names if n != names[4]],
             ["no_such_material"], names[:5],
             [names[0][:5], names[2].upper(), "oxide", names[6] + ".csv", "a", "", names[1].replace("_", ""), names[0].replace("_", " "), names[3].title()], [names[1] + "x", names[5][3:]],
             names[3:], names[:7], [n for j, n in enumerate(names) if j not in (2, 8)], [n for j, n in enumerate(names) if j not in (1, 4, 6)]]
    sizes = [1, 4, 2, 6, 1, 3, 5]
    while i < len(qs):
        n = sizes[len(cs) % len(sizes)]
        w = qs[i:i + n]
        i += n
        sk = skips[len(cs) % len(skips)] if len(cs) % 3 == 0 else None
        lookup = rng.sample(names, 3) + ["vacuum", names[0].upper(), ""] if len(cs) % 4 == 0 else rng.sample(names, 2)
        if sk:
            lookup = lookup + [n for n in names if n not in lookup]
        cs.append({"kind": "coll", "w": w, "skip": sk, "lookup": lookup, "np": len(cs) % 2 == 0})
    # collections one after the other in one process: same ends and length but other wavelengths in between
    for j in range(60 if ck.thorough else 12):
        w = sorted(rng.sample(qs, 5))
        for v in (w, [w[0], w[1] + (w[2] - w[1]) // 2, w[1], w[3] + 7, w[4]], w[::-1], [w[0]] + w[2:0:-1] + w[3:]):
            cs.append({"kind": "coll", "w": v, "skip": None, "lookup": rng.sample(names, 2), "np": False, "group": j})
    cs.append({"kind": "coll", "w": [], "skip": None, "lookup": [], "np": False})
    for j in range(400 if ck.thorough else 60):
        w = rng.sample(qs, [1, 2, 3][j % 3])
        pts = [{"on": rng.randrange(10), "re": 0, "im": 0, "d": 0} if rng.random() < 0.3 else
               {"on": None, "re": rng.randrange(-12, 25), "im": rng.randrange(0, 14), "d": rng.randrange(-3, 4)}
               for _ in range(5)]
        cs.append({"kind": "closest", "w": w, "skip": skips[j % 4], "shape": [(1, 1, 2), (2, 3, 1), (3, 1, 2)][j % 3],
                   "pts": pts, "np": False})
    nidn_import()
    groups = {}
    for c in cs:
        groups.setdefault(c.get("group", "_%d" % len(groups)), []).append(c)
    obs = [o for os_ in pmap(session, list(groups.values())) for o in os_]
    ck.validate("Trace_C06", TRACE_CFG, obs, canary=canary, files=files)
    ck.assumptions.append("the shipped CSV tables themselves are the ground truth")


main("C06", run)
