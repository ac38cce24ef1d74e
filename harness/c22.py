from common import *

TRACE_CFG = "INIT Init\nNEXT Next\nPOSTCONDITION Post\n"
GEN = """CONSTANTS Lines = {%s} Boxes = {%s}
INIT Init
NEXT Next
INVARIANTS SizeDoesNotMatter ZeroMean Gone
CONSTRAINT Emit
"""
SC = 2 ** 18
DX = 1e-7


def bump(w, d):
    return math.exp(-d * d / w ** 2)


def scene(c, shape, faces, pad, sides=()):
    """grid with the inner region of `shape`; faces: {(axis, side)}; pad None: absorbing boundaries of c["th"] cells,
    else space going on for pad cells; returns the grid, the slice of the inner region and the initial E"""
    import torch
    import nidn.fdtd as fd
    ext = [[0, 0], [0, 0], [0, 0]]
    for a, s in faces:
        ext[a][s] = c["th"] if pad is None else pad
    full = tuple(n + sum(e) for n, e in zip(shape, ext))
    g = fd.Grid(full, grid_spacing=DX, permittivity=float(c["bg"]), courant_number=c["cour"])
    if pad is None:
        if len(faces) == 6 and c["th"] % 2:
            from nidn.fdtd.boundaries import DomainBorderPML
            DomainBorderPML(g, border_cells=c["th"])
        else:
            for a, s in faces:
                idx = [slice(None)] * 3
                idx[a] = slice(0, c["th"]) if s == 0 else slice(-c["th"], None)
                g[tuple(idx)] = fd.PML(name="pml%d%d" % (a, s))
    lo = [e[0] for e in ext]
    sl = tuple(slice(lo[a], lo[a] + shape[a]) for a in range(3))
    pos = [c["centre"][a] + lo[a] for a in range(3)]
    if c.get("obj"):
        idx = tuple(slice(lo[a] + 4, lo[a] + 9) if shape[a] > 1 else slice(None) for a in range(3))
        g[idx] = fd.Object(permittivity=4.0, name="block")
    if c.get("src"):
        from nidn.utils.global_constants import SPEED_OF_LIGHT
        g[pos[0] - (shape[0] > 1) * 2, pos[1] + (shape[1] > 1), pos[2]] = fd.PointSource(
            period=12 * DX / SPEED_OF_LIGHT, amplitude=0.5, signal_type="ricker", name="src")
    A = torch.ones(full, dtype=torch.float64)
    for a in range(3):
        if full[a] > 1:
            v = torch.tensor([bump(c["w"], x - pos[a]) if abs(x - pos[a]) < 15 else 0.0 for x in range(full[a])], dtype=torch.float64)
            A = A * v.reshape([-1 if b == a else 1 for b in range(3)])
    # E = curl of the potential: no charges, no mean field
    E = torch.zeros(full + (3,), dtype=torch.float64)
    m = c["m"] - 1

    def db(a):
        d = torch.zeros_like(A)
        i1 = tuple(slice(1, None) if b == a else slice(None) for b in range(3))
        i0 = tuple(slice(None, -1) if b == a else slice(None) for b in range(3))
        d[i1] = A[i1] - A[i0]
        return d
    k1, k2 = (m + 1) % 3, (m + 2) % 3
    E[..., k1] += db(k2)
    E[..., k2] -= db(k1)
    return g, sl, E


def record(g, sl, E, steps, every):
    import torch
    g.E[...] = E
    out = []
    for t in range(1, steps + 1):
        g.step()
        if t % every == 0:
            out.append((torch.as_tensor(g.E)[sl].clone(), torch.as_tensor(g.H)[sl].clone()))
    return out


def rejects(c, faces):
    """what happens to boundaries that are misplaced or placed twice"""
    import nidn.fdtd as fd
    res = []
    a, s = faces[0]
    shape = [1, 1, 1]
    shape[a] = 30

    def at(g, v, thing):
        idx = [slice(None)] * 3
        idx[a] = v
        g[tuple(idx)] = thing

    def twice():
        g = fd.Grid(tuple(shape), grid_spacing=DX)
        v = slice(0, 8) if s == 0 else slice(-8, None)
        at(g, v, fd.PML())
        at(g, v, fd.PML())

    def inside():
        g = fd.Grid(tuple(shape), grid_spacing=DX)
        at(g, slice(5, 12), fd.PML())

    def periodic():
        g = fd.Grid(tuple(shape), grid_spacing=DX)
        at(g, slice(0, 8) if s == 0 else slice(-8, None), fd.PML())
        at(g, 0, fd.PeriodicBoundary())

    def named():
        g = fd.Grid(tuple(shape), grid_spacing=DX)
        at(g, slice(0, 8), fd.PML(name="same"))
        at(g, slice(-8, None), fd.PML(name="same"))
    return [outcome(f)[0] for f in (twice, inside, periodic, named)]


def drive(c):
    import torch
    import nidn.fdtd as fd
    o = {"case": {k: v for k, v in c.items() if k != "scratch"}, "kind": c["kind"], "frames": [], "pairs": [], "late": 0, "again": 0,
         "other": 0, "reject": []}
    c = dict(c)

    def go():
        fd.set_backend("torch")
        if c["kind"] == "line":
            a = c["ax"] - 1
            shape = [1, 1, 1]
            shape[a] = c["n"]
            c["centre"] = [0, 0, 0]
            c["centre"][a] = c["pos"]
            c["cour"] = c["cn"] / c["cd"]
            faces = [(a, s) for s, on in ((0, c["lo"]), (1, c["hi"])) if on]
            g, sl, E = scene(c, shape, faces, None)
            fr = record(g, sl, E, c["steps"], c["every"])
            k, m = 6 - c["ax"] - c["m"] - 1, c["m"] - 1
            rest_e, rest_h = [x for x in range(3) if x != k], [x for x in range(3) if x != m]
            for e, h in fr:
                o["frames"].append({"e": [fx(v, SC) for v in e.reshape(-1, 3)[:, k]], "h": [fx(v, SC) for v in h.reshape(-1, 3)[:, m]]})
                o["other"] = max(o["other"], fx(max(e[..., rest_e].abs().max(), h[..., rest_h].abs().max()), SC))
            closed = len(faces) < 2
        else:
            shape = c["size"]
            c["centre"] = c["pos"]
            c["cour"] = c["courant"] / 10 or None
            faces = [(a - 1, s) for a, s in c["faces"]]
            g, sl, E = scene(c, shape, faces, None)
            fr = record(g, sl, E, c["steps"], 1)
            g2, sl2, E2 = scene(c, shape, faces, c["steps"] // 2 + 4)
            fr2 = record(g2, sl2, E2, c["steps"], 1)
            del g2, E2
            top = max(float(E.abs().max()), max(float(e.abs().max()) for e, h in fr2))
            # per sampled step and component, the inner cell where the two differ most
            for t in range(4, c["steps"], 4):
                for x, y in zip(fr[t], fr2[t]):
                    for k in range(3):
                        d = (x[..., k] - y[..., k]).abs()
                        i = int(torch.nan_to_num(d, nan=1e30).argmax())
                        o["pairs"].append([fx(x[..., k].reshape(-1)[i] / top), fx(y[..., k].reshape(-1)[i] / top)])
            closed = len(faces) < 2 * sum(n > 1 for n in shape)
        top = float(E.abs().max())
        more = 3 * c["steps"] if c["kind"] == "line" or c["flat"] else 60
        tail = record(g, sl, torch.as_tensor(g.E).clone(), more, more)[-1]
        if not closed and not c.get("obj"):
            o["late"] = fx(max(tail[0].abs().max(), tail[1].abs().max()) / top)
        g.reset()
        fr3 = record(g, sl, E, c["steps"], c.get("every", 1))
        o["again"] = fx(max(max(float((x - y).abs().max()) for x, y in zip(p, q)) for p, q in zip(fr, fr3)) / top, 10 ** 9)
        o["reject"] = rejects(c, faces)
    try:
        go()
        o["out"] = "ok"
    except Exception as e:
        o["out"] = type(e).__name__
        o["error"] = str(e)[:200]
    return o


def canary(o):
    if o["out"] == "ok":
        if o["kind"] == "line":
            o["frames"][1]["e"][3] += 9000
        else:
            o["pairs"][3][0] += 20000
        return o


def run(ck):
    base = 100000 * (ck.seed % 50)
    nl, nb = (600, 96) if ck.thorough else (60, 20)
    from concurrent.futures import ThreadPoolExecutor
    J = 8 if not ck.thorough else 16
    ls = [range(base + i, base + nl, J) for i in range(J)]
    bs = [range(base + 50000 + i, base + 50000 + nb, J) for i in range(J)]
    js = lambda r: ", ".join(map(str, r))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda p: ck.cases("Gen_C22", GEN % (js(p[0]), js(p[1])), heap="2g"), zip(ls, bs)))
    cs = [c for r in res for c in r]
    cs.sort(key=lambda c: 0 if c["kind"] == "line" else 2 if c["flat"] == 0 else 1, reverse=True)
    nidn_import()
    obs = pmap(drive, cs, chunksize=1)
    ck.validate("Trace_C22", TRACE_CFG, obs, canary=canary)
    ck.extra["line_cases"] = sum(c["kind"] == "line" for c in cs)
    ck.extra["box_cases"] = sum(c["kind"] == "box" for c in cs)
    return False


main("C22", run)
