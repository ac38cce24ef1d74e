from common import *

TRACE_CFG = "INIT Init\nNEXT Next\nPOSTCONDITION Post\n"
GEN = """CONSTANTS Seeds = {%s} Kind = "%s"
INIT Init
NEXT Next
INVARIANTS NoOverwrite Contiguous FreeAround Stable
CONSTRAINT Emit
"""
QS = [0, 1, 2, 3, 5, 7, 9, 12, 16, 21, 27, 34, 42, 55, 70, 95, 130, 180]


def config(c):
    import nidn
    cfg = nidn.load_default_cfg()
    cfg.solver = "FDTD"
    cfg.Nx = cfg.Ny = 1
    cfg.N_layers, cfg.N_freq = c["nl"], c["nf"]
    cfg.PER_LAYER_THICKNESS = [t / 1000 for t in c["thick"]]
    cfg.physical_wavelength_range = [c["lmin"] * 1e-9, c["lmax"] * 1e-9]
    cfg.FDTD_pml_thickness = c["pml"] / 1000
    cfg.FDTD_free_space_distance = c["free"] / 1000
    cfg.FDTD_source_position = [c["srcx"] / 1000, c["srcy"] / 1000]
    cfg.FDTD_source_type, cfg.FDTD_pulse_type = c["source"], c["pulse"]
    cfg.FDTD_gridpoints_from_material_to_detector = c["det"]
    cfg.FDTD_min_gridpoints_per_unit_magnitude = c["minpts"]
    cfg.FDTD_niter = c["niter"]
    cfg.target_reflectance_spectrum = [0.5] * c["nf"]
    cfg.target_transmittance_spectrum = [0.5] * c["nf"]
    return cfg


def probe(pair, scaling):
    """what the scene does, seen through its fields; pair = (untouched grid, [t detector, r detector])"""
    import copy, torch
    grid, dets = pair

    def stepped(E=None, H=None, q=0):
        g = copy.deepcopy(grid)
        if E is not None:
            g.E[...] = E
        if H is not None:
            g.H[...] = H
        g.time_steps_passed = q
        g.step()
        return g
    o = {}
    nx, ny, nz = grid.E.shape[:3]
    o["n"], o["ny"], o["nz"] = nx, ny, nz
    o["spacing"] = fx(grid.grid_spacing * float(scaling) / 1e-6)
    eps = 1 / torch.as_tensor(grid.inverse_permittivity)[..., 2] * torch.ones(nx, ny, nz)
    f = torch.as_tensor(grid.absorption_factor) * torch.ones(nx, ny, nz, 3)
    f = f[..., 2]
    o["cols"] = [{"lo": fx(eps[x].min(), 10 ** 4), "hi": fx(eps[x].max(), 10 ** 4),
                  "f": fx(f[x].max()) if float(f[x].max() - f[x].min()) < 1e-9 else NAN} for x in range(nx)]
    # response to initial fields (difference to the run without them, so that sources cancel)
    ramp = torch.arange(nx, dtype=grid.E.dtype)[:, None, None].expand(nx, ny, nz)
    zero = stepped()
    H = torch.zeros_like(grid.H)
    H[..., 1] = ramp
    g = stepped(H=H)
    mid = ny // 2
    c0 = float(grid.courant_number)
    de = (g.E - zero.E)[:, mid, 0, 2] * (1 + f[:, mid, 0]) * eps[:, mid, 0] / c0 - 1
    E = torch.zeros_like(grid.E)
    E[..., 2] = ramp
    g = stepped(E=E)
    dE, dH = (g.E - zero.E)[:, mid, 0, 2], (g.H - zero.H)[:, mid, 0, 1]
    dh = torch.ones(nx)
    dh[:-1] = dH[:-1] - c0 * (dE[1:] - dE[:-1])
    de, dh = [abs(float(v)) > 1e-10 for v in de], [abs(float(v)) > 1e-10 for v in dh]
    o["pmlLo"] = de.index(False) if False in de else nx
    o["pmlHi"] = dh[::-1].index(False) if False in dh else nx
    rnd = torch.Generator().manual_seed(5)
    E, H = (torch.rand(grid.E.shape, generator=rnd, dtype=grid.E.dtype) for _ in range(2))
    g = stepped(E=E, H=H)
    dE, dH = g.E - zero.E, g.H - zero.H
    o["wrap"] = bool(torch.allclose(dE[:, 0], dE[:, -1], atol=1e-12) and torch.allclose(dH[:, 0], dH[:, -1], atol=1e-12)
                     and ny > 1 and float((dE[:, 0] - dE[:, 1]).abs().max()) > 1e-6)
    o["det"] = []
    g, ds = copy.deepcopy((grid, dets))
    g.E[..., 2] = ramp + 1000 * torch.arange(ny, dtype=grid.E.dtype)[None, :, None]
    for d in ds:
        d.detect_E()
        last = torch.as_tensor(d.detector_values()["E"][-1])
        o["det"].append([[int(round(float(p[2]))) % 1000, int(round(float(p[2]))) // 1000] for p in last])
    o["src"] = []
    for q in QS:
        z = stepped(q=q).E[:, :, 0, 2]
        cells = [[int(x), int(y), fx(z[x, y], 10 ** 4)] for y in range(ny) for x in range(nx) if abs(float(z[x, y])) > 1e-9]
        o["src"].append({"q": q, "cells": cells[:8], "sum": fx(z.sum(), 10 ** 4)})
    return o


def eps_of(c):
    import torch
    return torch.tensor([[[[complex(c["eps"][f][i][0] / 10, c["eps"][f][i][1] / 10) for f in range(c["nf"])]
                           for i in range(c["nl"])]]], dtype=torch.complex128)


def scene(c):
    import torch
    from nidn.fdtd_integration.init_fdtd import init_fdtd
    from nidn.fdtd_integration.compute_fdtd_grid_scaling import _compute_fdtd_grid_scaling
    o = {"case": c, "kind": "scene", "out": "ok", "scaling": 0}
    try:
        cfg = config(c)
        cfg.FDTD_grid_scaling = _compute_fdtd_grid_scaling(cfg)
        o["scaling"] = fx(cfg.FDTD_grid_scaling, 10 ** 4)
        if len(cfg.PER_LAYER_THICKNESS) == 1:
            cfg.PER_LAYER_THICKNESS = cfg.PER_LAYER_THICKNESS * c["nl"]
        eps = eps_of(c)
        for key, inc in (("free", False), ("mat", True)):
            g, t, r = init_fdtd(cfg, include_object=inc, wavelength=c["wl"] * 1e-9,
                                permittivity=eps[:, :, :, 0] if inc else None)
            o[key] = probe((g, [t, r]), cfg.FDTD_grid_scaling)
    except Exception as e:
        o["out"] = type(e).__name__
        o["error"] = str(e)[:200]
    return o


def simulate(c):
    import nidn, torch, copy
    from nidn.fdtd.grid import Grid
    o = {"case": c, "kind": "run", "out": "ok", "scaling": 0, "runs": []}
    seen = []
    real = Grid.step

    def step(self, *a, **k):
        for s in seen:
            if s[0] is self:
                s[2] += 1
                break
        else:
            seen.append([self, copy.deepcopy((self, list(self.detectors))), 1])
        return real(self, *a, **k)
    cfg = config(c)
    Grid.step = step
    try:
        nidn.compute_spectrum(eps_of(c), cfg)
    except Exception as e:
        # the coefficients of very short signals are C16's business; the scene is judged if it was run
        o["out"] = type(e).__name__
        o["error"] = str(e)[:200]
    finally:
        Grid.step = real
    try:
        if "FDTD_grid_scaling" in cfg:
            o["scaling"] = fx(cfg.FDTD_grid_scaling, 10 ** 4)
        for _, pair, n in seen:
            g, ds = pair
            p = probe((g, sorted(ds, key=lambda d: -int(d.x[0] if hasattr(d.x, "__len__") else d.x))), cfg.FDTD_grid_scaling)
            p["steps"] = n
            o["runs"].append(p)
    except Exception as e:
        o["out"] = "probe " + type(e).__name__ + str(e)[:200]
    return o


def canary(o):
    if o["out"] != "ok":
        return None
    s = o["mat"] if o["kind"] == "scene" else o["runs"][0]
    if o["kind"] == "scene":
        s["pmlLo"] += 2
    else:
        o["runs"] = o["runs"][1:]
    return o


def run(ck):
    base = 100000 * (ck.seed % 50)
    n1, n2 = (1500, 120) if ck.thorough else (220, 26)
    from concurrent.futures import ThreadPoolExecutor
    jobs = [("scene", range(base + i, base + min(i + 80, n1))) for i in range(0, n1, 80)]
    jobs += [("run", range(base + 50000, base + 50000 + n2))]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: (j[0], ck.cases("Gen_C15", GEN % (", ".join(map(str, j[1])), j[0]), heap="2g")), jobs))
    nidn_import()
    sc = [c for k, r in res if k == "scene" for c in r]
    rn = [c for k, r in res if k == "run" for c in r]
    import nidn.fdtd_integration as fi
    # one long simulation
    rn[0]["niter"], rn[0]["nf"] = 3400, 1
    obs = pmap(simulate, rn, chunksize=1)
    try:
        from nidn.fdtd_integration.init_fdtd import init_fdtd                        # noqa
        from nidn.fdtd_integration.compute_fdtd_grid_scaling import _compute_fdtd_grid_scaling   # noqa
        obs += pmap(scene, sc)
    except ImportError:
        ck.assumptions.append("scene builder not importable on its own; scenes judged through compute_spectrum only")
    ck.validate("Trace_C15", TRACE_CFG, obs, canary=canary)
    ck.extra["scenes_built"] = len(sc)
    ck.extra["simulations_observed"] = sum(len(o.get("runs", [])) for o in obs)
    return False


main("C15", run)
