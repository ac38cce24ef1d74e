from common import *

TRACE_CFG = "INIT Init\nNEXT Next\nPOSTCONDITION Post\n"
GEN = """CONSTANTS Seeds = {%s}
INIT Init
NEXT Next
INVARIANTS Counter OneSamplePerStep DivFree ResetState
CONSTRAINT Emit
"""
SC = 2 ** 18
DX = 1e-7


def arr(t):
    return [[[[fx(v, SC) for v in z] for z in y] for y in x] for x in t.tolist()]


def drive(c):
    import torch
    import nidn.fdtd as fd
    from nidn.utils.global_constants import SPEED_OF_LIGHT, ETA_0
    o = {"case": {k: v for k, v in c.items() if k not in ("E0", "H0", "script", "dspec", "durs")}, "frames": [], "durs": []}

    def sl(lo, hi):
        return tuple(slice(a, b) for a, b in zip(lo, hi))

    def go():
        fd.set_backend("torch")
        shape = tuple(c["shape"])
        courant = c["cn"] / c["cd"]
        o["defcour"] = fx(fd.Grid(shape, grid_spacing=DX).courant_number)
        D = sum(n > 1 for n in shape)
        o["toohigh"], _ = outcome(fd.Grid, shape, grid_spacing=DX, courant_number=1.01 / math.sqrt(D))
        o["atlimit"], _ = outcome(fd.Grid, shape, grid_spacing=DX,
                                  courant_number=1.0 if D == 1 else 0.9999999 / math.sqrt(D))
        # durations in seconds on a grid of three cells
        for n in c["durs"]:
            g = fd.Grid((3, 1, 1), grid_spacing=DX, courant_number=courant)
            g.run(n * g.time_step, progress_bar=False)
            o["durs"].append([n, int(g.time_steps_passed)])
        g = fd.Grid(shape, grid_spacing=DX, permittivity=float(c["bg"]), permeability=float(c["mu"]),
                    courant_number=courant)
        o["dt"] = fx(g.time_step * SPEED_OF_LIGHT / DX / courant)
        for a in c["per"]:
            idx = [slice(None)] * 3
            idx[a - 1] = 0
            g[tuple(idx)] = fd.PeriodicBoundary()
        for ob in c["objs"]:
            if ob["abs"]:
                # absorption factor = 0.5 * courant * conductivity * spacing * eta0 / permittivity
                sigma = ob["kp"] / ob["kq"] / (0.5 * courant * DX * ETA_0)
                thing = fd.AbsorbingObject(permittivity=torch.tensor(float(ob["eps"])),
                                           conductivity=torch.tensor(sigma))
            else:
                thing = fd.Object(permittivity=float(ob["eps"]))
            g[sl(ob["lo"], ob["hi"])] = thing
        for n, s in enumerate(c["srcs"]):
            kw = dict(amplitude=s["amp"] / 2, phase_shift=s["ph"] * math.pi / 2, name="src%d" % n)
            if s["kind"] == "plane":
                per = s["per"] * g.time_step * 1.0001 if s["sec"] else s["per"]
                src = fd.PlaneSource(period=per, amplitude=kw["amplitude"], phase_shift=kw["phase_shift"],
                                     name=kw["name"], polarization="xyz"[s["pol"] - 1])
                idx = [slice(None)] * 3
                idx[s["flat"] - 1] = s["lo"][s["flat"] - 1]
                g[tuple(idx)] = src
                continue
            if s["sig"] == "continuous":
                kw["period"] = s["per"] * g.time_step * 1.0001 if s["sec"] else s["per"]
            elif s["sig"] == "hanning":
                P = 7
                kw.update(period=P, cycle=s["cyc"], signal_type="hanning",
                          hanning_dt=2 * math.pi * P * s["per"] * s["cyc"] / 120 * (1 - 1e-9))
            else:
                kw.update(period=s["per"] * DX / SPEED_OF_LIGHT, signal_type="ricker")
            if s["kind"] == "point":
                src = fd.PointSource(**kw)
                x, y, z = s["lo"]
                if s["how"]:
                    g[x * DX, y, z] = src          # position given in metres
                else:
                    g[x, y, z] = src
            else:
                src = fd.LineSource(**kw)
                cells = line(s["lo"], s["hi"])
                if s["how"]:
                    g[[p[0] for p in cells], [p[1] for p in cells], [p[2] for p in cells]] = src
                else:
                    g[sl(s["lo"], s["hi"])] = src
        dets = []
        for n, cells in enumerate(c["dets"]):
            d = fd.LineDetector(name="det%d" % n)
            sp = c["dspec"][n]
            if sp["box"]:
                g[sl(sp["lo"], sp["hi"])] = d
            else:
                g[[p[0] for p in cells], [p[1] for p in cells], [p[2] for p in cells]] = d
            dets.append(d)
        g.E[...] = torch.tensor(c["E0"], dtype=g.E.dtype) / 16
        g.H[...] = torch.tensor(c["H0"], dtype=g.H.dtype) / 16
        done = 0

        def frame(op, n):
            # what the detectors recorded during this operation
            nonlocal done
            lens = {len(d.detector_values()[k]) - done for d in dets for k in "EH"} or {n}
            m = lens.pop() if len(lens) == 1 else -1
            obs = []
            for q in range(m if 0 <= m <= 50 else 0):
                obs.append([{k.lower(): [[fx(v, SC) for v in p] for p in torch.as_tensor(
                    d.detector_values()[k][done + q]).tolist()] for k in "EH"} for d in dets])
            if m < 0:
                obs = [[] for _ in range(n + 1)]
            done += max(m, 0)
            o["frames"].append({"op": op, "n": n, "E": arr(g.E), "H": arr(g.H), "t": int(g.time_steps_passed),
                                "obs": obs})
        frame("init", 0)
        for s in c["script"]:
            if s["op"] == "reset":
                g.reset()
            elif s["op"] == "step":
                g.step()
            else:
                # a duration is given in steps or in seconds
                g.run((s["n"] + 0.3) * g.time_step if s["sec"] else s["n"], progress_bar=False)
            frame(s["op"], s["n"])
    try:
        go()
        o["outcome"] = "ok"
    except Exception as e:
        o["outcome"] = type(e).__name__
        o["error"] = str(e)[:200]
        o.setdefault("defcour", 0)
        o.setdefault("toohigh", "")
        o.setdefault("atlimit", "")
        o.setdefault("dt", 0)
    return o


def line(lo, hi):
    m = max(abs(a - b) for a, b in zip(lo, hi))
    return [[l + (i * (h - l)) // m if h != l else l for l, h in zip(lo, hi)] for i in range(m)]


def canary(o):
    for f in o["frames"][1:]:
        if f["op"] != "reset" and f["n"]:
            f["E"][0][0][0][2] += 2000
            return o
    return None


def run(ck):
    n = 1200 if ck.thorough else 160
    base = 100000 * (ck.seed % 50)
    per = -(-n // 8)
    from concurrent.futures import ThreadPoolExecutor
    blocks = [range(base + i, base + min(i + per, n)) for i in range(0, n, per)]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda b: ck.cases("Gen_C14", GEN % ", ".join(map(str, b)), heap="2g"), blocks))
    cs = [c for r in res for c in r]
    nidn_import()
    obs = pmap(drive, cs)
    ck.validate("Trace_C14", TRACE_CFG, obs, canary=canary)
    return False


main("C14", run)
