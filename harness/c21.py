import re, tempfile
from common import *
from c08 import grid_model, voxel_model

TRACE_CFG = "INIT Init\nNEXT Next\nPOSTCONDITION Post\n"
GEN = """CONSTANTS Shapes = {%s} Seeds = {%s}
INIT Init
NEXT Next
INVARIANTS Apart OnPlot Ends Physical
CONSTRAINT Emit
"""
U = 400


def V(c, x, y, l, f, k):
    x, y = x // c["os"], y // c["os"]
    return ((17 * x + 23 * y + 31 * l + 41 * f + 5 * k + 7 * x * l + 11 * y * f + c["seed"]) % 97) - 40


def the_eps(c):
    import torch
    return torch.tensor([[[[complex(V(c, x, y, l, f, 0), V(c, x, y, l, f, 1)) / 8 for f in range(c["nf"])] for l in range(c["nl"])]
                          for y in range(c["ny"])] for x in range(c["nx"])], dtype=torch.cdouble)


def make_run(c):
    import nidn, torch
    from dotmap import DotMap
    cfg = nidn.load_default_cfg()
    sd, nf = c["seed"], c["nf"]
    lo = [1e-6, 0.6e-6, 1.3e-6][sd % 3]
    cfg.update(dict(model_type=c["model"], type="regression", Nx=c["nx"], Ny=c["ny"], N_layers=c["nl"], N_freq=nf, eps_oversampling=c["os"],
                    real_min_eps=-5.0, real_max_eps=7.0, imag_min_eps=-5.0, imag_max_eps=7.0, avoid_zero_eps=False, add_noise=False,
                    physical_wavelength_range=[lo, lo + 1.4e-6], freq_distribution="log" if sd % 2 else "linear", name="run%d" % sd,
                    TRCWA_NG=1, PER_LAYER_THICKNESS=[0.2 + 0.1 * (i % 3) for i in range(c["nl"])] if c["thick"] else [0.3]))
    t = lambda a, b, k: [((a * f + b * k + (61 if a == 137 else 29) * sd) % 499) / 1000 for f in range(nf)]
    cfg.target_reflectance_spectrum, cfg.target_transmittance_spectrum = t(137, 251, 0), t(137, 251, 1)
    nidn.get_frequency_points(cfg)
    n = 1 + (sd * 23) % 47 + (1200 if sd % 4 == 1 else 0)
    log = lambda k: [(1 + (97 * i + 211 * k + 13 * sd) % 900) / 1000 for i in range(n)]
    cfg.results = DotMap(L1_errs=log(1), loss_log=log(2), weighted_average_log=log(3))
    if c["model"] == "voxel":
        cfg.model = voxel_model(the_eps(c))
    else:
        cfg.model = grid_model(lambda x, y, l, f: [(V(c, x * c["os"], y * c["os"], l, f, k) + 40) / 96.0 for k in (0, 1)], 2)
    given = t(173, 307, 0), t(173, 307, 1)
    return cfg, given


def axes_of(fig):
    import numpy as np
    res = []
    bars = set()
    for ax in fig.axes:
        for col in list(ax.collections) + list(ax.images):
            if getattr(col, "colorbar", None) is not None:
                bars.add(col.colorbar.ax)
    num = lambda t: [float(x) for x in re.findall(r"-?\d+\.\d+|-?\d+(?=um)", t)]
    for ax in fig.axes:
        if ax in bars:
            continue
        d3 = getattr(ax, "name", "") == "3d"
        a = {"dim": 3 if d3 else 2, "ylabel": ax.get_ylabel(), "title": fx((num(ax.get_title()) or [0.0])[0], 1000), "lines": [], "markers": [],
             "clim": [], "ticks": [], "texts": [], "nums": [], "layers": [], "imag": "imag" in ax.get_ylabel().lower()}
        if d3:
            for col in ax.collections:
                xs, ys, zs = [np.asarray(v, dtype=float).ravel() for v in col._offsets3d]
                vs = np.asarray(col.get_array(), dtype=float).ravel()
                a["markers"] += [[fx(p, 1000) for p in q[:3]] + [fx(q[3], U)] for q in zip(xs, ys, zs, vs)]
                a["clim"] = [fx(v if v is not None else 0.0, U) for v in col.get_clim()]
                if col.colorbar is not None:
                    b = col.colorbar.ax
                    a["imag"] = "imag" in b.get_ylabel().lower()
                    lab = [t.get_text() for t in b.get_yticklabels()]
                    if lab and all(re.match(r"[a-z_]+$", t) for t in lab):
                        a["ticks"] = [{"at": fx(float(p), U), "label": t} for p, t in zip(b.get_yticks(), lab)]
            lay = [re.match(r"L(\d+)$", t.get_text()) for t in ax.get_zticklabels()]
            a["layers"] = [[fx(float(p), 1000), int(m.group(1)) if m else -1] for p, m in zip(ax.get_zticks(), lay)]
        else:
            leg = ax.get_legend()
            names = [t.get_text() for t in leg.get_texts()] if leg else []
            for i, ln in enumerate(ax.lines):
                big = U if "ermittivity" in a["ylabel"] else 10 ** 6
                a["lines"].append({"label": names[i] if i < len(names) else "", "dashed": ln.get_linestyle() in ("--", "dashed") and big == U,
                                   "x": [fx(float(v), 1000) for v in np.ravel(ln.get_xdata())],
                                   "y": [fx(float(v), big) for v in np.ravel(ln.get_ydata())]})
            for t in ax.texts:
                v = num(t.get_text())
                if "=" in t.get_text() and v:
                    a["nums"].append(fx(v[0], 10 ** 6))
                else:
                    x, y = t.get_position()
                    a["texts"].append({"label": t.get_text().strip(), "x": fx(float(x), 1000), "y": fx(float(y), U)})
        res.append(a)
    return res


def state(cfg):
    import torch
    d = []
    for k in sorted(cfg.keys()):
        v = cfg[k]
        if isinstance(v, torch.nn.Module):
            d.append([k] + [[n, repr(x.tolist())] for n, x in v.state_dict().items()])
        elif isinstance(v, torch.Tensor):
            d.append([k, repr(v.tolist())])
        else:
            d.append([k, repr(v)])
    return json.dumps(d)


def drive(c):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure
    import nidn, torch, io, contextlib
    from nidn.materials.material_collection import MaterialCollection
    from nidn.materials.find_closest_material import _find_closest_material
    P = nidn
    plt.close("all")
    o = {"c": c, "axes": [], "files": [], "shown": 0, "kept": True, "printed": [], "wl": [], "prod": [[], []], "names": [], "close": [], "err": [], "rows": []}
    eps = the_eps(c)
    o["out"], r = outcome(make_run, c)
    if r is None:
        return o
    cfg, given = r
    o["wl"] = [fx(1 / float(f), 1000) for f in cfg.target_frequencies]
    folder = tempfile.mkdtemp(prefix="c21_")
    saved, shown = [], []
    old = Figure.savefig, plt.show
    skip = [None, ["germanium"], ["zinc_oxide", "titanium_oxide", "aluminium_oxide"]][c["skip"]]
    mats = list(c["mats"])

    def record(fig, *a, **k):
        name = a[0] if a else k.get("fname")
        saved.append((str(name), axes_of(fig)))
    Figure.savefig = record
    plt.show = lambda *a, **k: shown.append(axes_of(plt.gcf()))
    kind = c["kind"]

    def prepare():
        """the values the plot must show, from the parts of the code that other properties decide"""
        if kind == "spectra" and not c["given"]:
            e, _ = nidn.model_to_eps_grid(cfg.model, cfg)
            R, T = nidn.compute_spectrum(e, cfg)
            o["prod"] = [[fx(float(x)) for x in R], [fx(float(x)) for x in T]]
        if kind in ("material", "point"):
            mc = MaterialCollection(cfg.target_frequencies, to_skip=skip if kind == "material" else None)
            o["names"] = list(mc.material_names)
            er, ix = _find_closest_material(eps, cfg, mc)
            o["close"] = [int(i) + 1 for i in ix.reshape(-1)]
            o["err"] = [fx(float(i), U) for i in er.reshape(-1)]
            o["rows"] = [[[fx(float(v.real), U) for v in row], [fx(float(v.imag), U) for v in row]] for row in mc.epsilon_matrix]
    try:
        kw = {"save_path": folder} if c["save"] else {}
        o["out"], _ = outcome(prepare)
        if o["out"] != "ok":
            return o
        if kind in ("point", "material") and c["own"]:
            if kind == "point":
                cfg.eps = eps.clone() if c["own"] == 1 else eps.tolist()
            cfg.model = voxel_model(0.5 * eps) if c["model"] == "voxel" else grid_model(lambda x, y, l, f: [0.5, 0.5], 2)
        arg = eps.clone().requires_grad_(kind in ("material", "epsgrid") and c["seed"] % 3 == 2)
        rt = [torch.tensor(g) for g in given] if c["seed"] % 2 else [[torch.tensor(x) for x in g] for g in given]
        if c["seed"] % 3 == 1 and c["given"]:
            cfg.target_reflectance_spectrum, cfg.target_transmittance_spectrum = [torch.tensor(x) for x in (cfg.target_reflectance_spectrum, cfg.target_transmittance_spectrum)]
        before = state(cfg)
        buf = io.StringIO()

        def go():
            if kind == "spectra":
                a = dict(kw)
                if c["given"]:
                    a.update(prod_R_spectrum=rt[0], prod_T_spectrum=rt[1])
                if c["fname"]:
                    a["filename"] = c["fname"]
                if c["seed"] % 2:
                    a["markers"] = False
                P.plot_spectra(cfg, **a)
            elif kind == "spectrum":
                a = dict(kw, show_absorption=c["absorb"])
                if c["fname"]:
                    a["filename"] = c["fname"]
                if c["seed"] % 2:
                    cfg.pop("target_frequencies")
                P.plot_spectrum(cfg, rt[0], rt[1], **a)
            elif kind == "losses":
                P.plot_losses(cfg, **kw)
            elif kind == "modelgrid":
                P.plot_model_grid(cfg, **kw)
            elif kind == "epsgrid":
                P.plot_epsilon_grid(arg, cfg, **kw)
            elif kind == "perfreq":
                P.plot_model_grid_per_freq(cfg, freq_idx=list(c["idx"]), **kw)
            elif kind == "material":
                P.plot_material_grid(cfg, eps=arg if c["own"] else None, plot_error=c["err"], to_skip=skip, **kw)
            elif kind == "point":
                m = None if not mats else mats[0] if len(mats) == 1 else list(mats)
                P.plot_eps_per_point(cfg, compare_to_material=m, legend=c["legend"], **kw)
            else:
                if c["seed"] % 2:
                    cfg.material_collection = MaterialCollection(cfg.target_frequencies)
                if c["seed"] % 3 == 0:
                    cfg.model = None
                with contextlib.redirect_stdout(buf):
                    nidn.print_cfg(cfg)
        o["out"], _ = outcome(go)
        if kind == "print":
            txt = buf.getvalue()
            for k in cfg.keys():
                v = cfg[k]
                if k in ("material_collection",):
                    continue
                alt = [str(v)] + ([str(int(v))] if isinstance(v, bool) else [])
                o["printed"].append({"key": k, "found": any(re.search(r"(^|[|\n])\s*%s\s*:\s*%s(?![\w.])" % (re.escape(k), re.escape(x)), txt) for x in alt)})
        else:
            o["kept"] = state(cfg) == before and bool((arg == eps).all()) and list(c["mats"]) == mats
        o["shown"] = len(shown)
        o["files"] = [{"dir": os.path.dirname(n) == folder and n.endswith(".png"), "name": os.path.basename(n)[:-4]} for n, _ in saved]
        figs = [a for _, a in saved] or shown
        o["axes"] = figs[0] if figs else []
    finally:
        Figure.savefig, plt.show = old
        plt.close("all")
        import shutil
        shutil.rmtree(folder, ignore_errors=True)
    return o


def canary(o):
    if o["c"]["kind"] == "modelgrid" and o["axes"]:
        o["axes"][0]["markers"][-1][3] += 9
        return o
    return None


def run(ck):
    nidn_import()
    sh = [1111, 1112, 1133, 2213, 3121, 1341, 2315, 4212, 3334, 4423, 1128] + ([1195, 5511, 9112, 2274] if ck.thorough else [])
    cs = ck.cases("Gen_C21", GEN % (", ".join(map(str, sh)), "1, 2, 5, 6" if not ck.thorough else "1, 2, 3, 6, 8, 9, 13, 29"), workers=8)
    ck.rng.shuffle(cs)
    by = {}
    for c in cs:
        by.setdefault(c["kind"], []).append(c)
    lim = 400 if ck.thorough else 40
    cs = [c for k in sorted(by) for c in by[k][:lim]]
    obs = pmap(drive, cs)
    ck.extra["plots"] = {k: len(v[:lim]) for k, v in by.items()}
    ck.validate("Trace_C21", TRACE_CFG, obs, canary=canary)
    ck.assumptions += ["the artists handed to matplotlib when a figure is saved or shown are what the user sees",
                       "permittivity grid of the scripted model, RCWA spectrum, material table and closest material are decided by C06, C08 and C10-C12"]


if __name__ == "__main__":
    main("C21", run)
