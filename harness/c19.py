from common import *
import pickle, glob as _glob

TRACE_CFG = "INIT Init\nNEXT Next\nPOSTCONDITION Post\n"
GEN = "CONSTANTS Depth = %d\nINIT Init\nNEXT Next\nINVARIANTS Snapshots OneFilePerSave\nCONSTRAINT Emit\n"
KINDS = {"spectra": "spectra", "loss": "loss", "per_freq": "per_freq", "material": "material", "eps": "eps"}
from c19_content import DERIVED, canon, content


def files(root):
    res = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            res[os.path.relpath(p, root)] = hashlib.md5(open(p, "rb").read()).hexdigest()
    return res


def new_run(k, variant):
    import nidn
    cfg = nidn.load_default_cfg()
    cfg.name = "run"                       # both runs carry the same name
    cfg.N_freq = [2, 1, 5, 4][variant % 4]
    cfg.N_layers = 1 + variant % 2
    cfg.iterations = 2
    cfg.hidden_layers, cfg.n_neurons = 1, 4
    cfg.target_reflectance_spectrum = [0.5] * cfg.N_freq
    cfg.target_transmittance_spectrum = [0.5] * cfg.N_freq
    cfg.model_type = ["siren", "nerf", "voxel"][variant % 3]
    cfg.type = "classification" if variant % 3 == 1 else "regression"
    cfg.seed = 5 + k
    if variant % 5 == 3:
        cfg.Nx = cfg.Ny = 2
        cfg.TRCWA_NG = 1
    if variant % 2 == 0:                   # every other setting away from its default
        cfg.add_noise, cfg.noise_scale = True, 0.01
        cfg.absorption_loss = True
        cfg.freq_distribution = "log"
        cfg.physical_wavelength_range = [2e-6, 9e-6]
        cfg.use_regularization_loss = False
        cfg.reg_loss_weight, cfg.L, cfg.learning_rate = 0.25, 2.0, 1e-3
        cfg.siren_omega = 2.0
        cfg.avoid_zero_eps = False
        cfg.real_min_eps, cfg.real_max_eps, cfg.imag_min_eps, cfg.imag_max_eps = 1.0, 8.0, 0.5, 1.5
        cfg.PER_LAYER_THICKNESS = [0.25 * (i + 1) for i in range(cfg.N_layers)]
        cfg.TRCWA_L_grid = [[0.3, 0.0], [0.0, 0.2]]
        cfg.TRCWA_TOP_LAYER_EPS, cfg.TRCWA_BOTTOM_LAYER_EPS = 1.5, 2.0
        cfg.FDTD_niter, cfg.FDTD_source_type = 50, "point"
    if variant % 4 == 0:
        cfg.eps_oversampling = 2
        cfg.Nx, cfg.Ny, cfg.TRCWA_NG = 2, 2, 1
    return cfg


def drive(case):
    import nidn, matplotlib
    matplotlib.use("Agg")
    from matplotlib import pyplot as plt
    root = tempfile.mkdtemp(prefix="c19_", dir=case["scratch"])
    work, results = os.path.join(root, "work"), os.path.join(root, "results")
    os.makedirs(work)
    os.makedirs(results)
    old = os.getcwd()
    os.chdir(work)
    steps = []
    try:
        runs = {"A": new_run(0, case["variant"]), "B": new_run(1, case["variant"] + 1)}
        ids = {}

        def cid(text):
            return ids.setdefault(text, len(ids))
        for r in runs:
            nidn.run_training(runs[r])
        saved = {}          # relative path -> content id at the time of saving
        nedit = 0
        for o in case["ops"]:
            e = {"op": o["op"], "r": o["r"], "sub": o["sub"], "new": [], "png": [], "kept": True}
            f1 = files(results)
            # plots may refresh derived entries, saved files hold everything
            der = o["op"] != "plots"
            e["before"] = {r: cid(content(runs[r], der)) for r in runs}
            run = runs[o["r"]]

            def act():
                nonlocal nedit
                if o["op"] == "edit":
                    nedit += 1
                    run.L = 1.0 + nedit
                    run.results.loss_log.append(0.125 * nedit)
                    for p in run.model.parameters():
                        p.data.add_(0.25)
                        break
                elif o["op"] == "train":
                    run.seed += 1
                    run.pop("model", None)
                    nidn.run_training(run)
                elif o["op"] == "save":
                    nidn.save_run(run, o["sub"]) if o["sub"] else nidn.save_run(run)
                elif o["op"] == "plots":
                    nidn.save_all_plots(run, os.path.join("..", "results", o["sub"], "plots"))
                    plt.close("all")
                elif o["op"] == "load":
                    for f in sorted(saved)[:1]:
                        nidn.load_run(os.path.join("..", "results", f))
            try:
                act()
                e["out"] = "ok"
            except Exception as ex:
                e["out"] = type(ex).__name__
                e["error"] = str(ex)[:300]
            e["after"] = {r: cid(content(runs[r], der)) for r in runs}
            f2 = files(results)
            isplot = lambda f: f.endswith(".png")
            for f in f2:
                if f not in f1 and not isplot(f):
                    try:
                        loaded = cid(content(nidn.load_run(os.path.join(results, f))))
                    except Exception:
                        loaded = -1
                    e["new"].append({"dir": os.path.dirname(f), "prefix": os.path.basename(f).startswith("run"),
                                     "loaded": loaded})
                    saved[f] = e["before"][o["r"]]
            if o["op"] == "plots":
                folder = os.path.join(results, o["sub"], "plots")
                names = [os.path.basename(p) for p in _glob.glob(folder + "/*") if os.path.getsize(p) > 1000
                         and open(p, "rb").read(4) == b"\x89PNG"]
                e["png"] = sorted({k for k, sub in KINDS.items() if any(sub in n for n in names)}
                                  | ({"model_grid"} if any("model_grid" in n and "freq" not in n for n in names) else set()))
                e["kept"] = all(f2.get(f) == h for f, h in f1.items() if not isplot(f))
            e["files"] = {f.replace(" ", "_"): cid("file" + h) for f, h in f1.items()} or {"none": 0}
            e["files2"] = {f.replace(" ", "_"): cid("file" + h) for f, h in f2.items()} or {"none": 0}
            e["files2"].setdefault("none", 0)
            keys = sorted(saved)
            e["expect"] = [saved[f] for f in keys]
            e["reload"] = []
            for f in keys:
                try:
                    e["reload"].append(cid(content(nidn.load_run(os.path.join(results, f)))))
                except Exception:
                    e["reload"].append(-1)
            steps.append(e)
    finally:
        os.chdir(old)
        shutil.rmtree(root, ignore_errors=True)
    return {"ops": case["ops"], "variant": case["variant"], "steps": steps}


def batch(case):
    """nidn/scripts/run_cfgs.py on a folder of configurations"""
    import nidn, toml
    root = tempfile.mkdtemp(prefix="c19b_", dir=case["scratch"])
    work, cfgs, results = (os.path.join(root, d) for d in ("work", "cfgs", "results"))
    for d in (work, cfgs, results):
        os.makedirs(d)
    try:
        want = []
        for i, name in enumerate(case["names"]):
            c = new_run(i, i)
            c.name = name
            with open(os.path.join(cfgs, "c%d.toml" % i), "w") as fh:
                toml.dump(c.toDict(), fh)
            ref = nidn.run_training(c)
            want.append([name, json.dumps(canon(ref.results.loss_log))])
        env = dict(os.environ, PYTHONPATH=REPO, MPLBACKEND="Agg", OMP_NUM_THREADS="1")
        p = subprocess.run([sys.executable, os.path.join(REPO, "nidn/scripts/run_cfgs.py"), cfgs], cwd=work, env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=300)
        got, png = [], {}
        for d, _, fs in os.walk(results):
            for f in fs:
                if f.endswith(".pk"):
                    r = nidn.load_run(os.path.join(d, f))
                    got.append([r.name, json.dumps(canon(r.results.loss_log))])
                    png[d] = sorted(x for x in os.listdir(d) if x.endswith(".png"))
        kinds = []
        for d, names in png.items():
            kinds.append(sorted({k for k, sub in KINDS.items() if any(sub in n for n in names)}
                                | ({"model_grid"} if any("model_grid" in n and "freq" not in n for n in names) else set())))
        ids = {}
        cid = lambda t: ids.setdefault(json.dumps(t), len(ids))
        want, got = sorted(cid(w) for w in want), sorted(cid(w) for w in got)
        e = {"op": "save", "r": "A", "sub": "b", "out": "ok" if p.returncode == 0 else "failed", "error": p.stderr[-300:],
             "before": {"A": 0}, "after": {"A": 0}, "files": {"none": 0}, "files2": {"none": 0},
             "new": [{"dir": "b", "prefix": True, "loaded": 0}], "png": [], "kept": True,
             "expect": want, "reload": got}
        steps = [e]
        for k in kinds:
            steps.append(dict(e, op="plots", png=k, new=[]))
        return {"ops": ["batch"], "variant": -1, "steps": steps}
    finally:
        shutil.rmtree(root, ignore_errors=True)


def any_(case):
    return batch(case) if "names" in case else drive(case)


def canary(o):
    for e in o["steps"]:
        if e["reload"]:
            e["reload"][0] += 1000
            return o
    return None


def run(ck):
    nidn_import()
    cs = ck.cases("Gen_C19", GEN % (5 if ck.thorough else 4), workers=4)
    plots = [c for c in cs if any(o["op"] == "plots" for o in c["ops"])]
    rest = [c for c in cs if not any(o["op"] == "plots" for o in c["ops"])]
    cs = ck.rng.sample(plots, 96 if ck.thorough else 24) + ck.rng.sample(rest, min(len(rest), 1500 if ck.thorough else 200))
    for i, c in enumerate(cs):
        c["variant"] = i
        c["scratch"] = ck.work
    bt = [{"names": ["p", "q", "p"], "scratch": ck.work}]
    obs = pmap(any_, bt + cs, chunksize=1)
    ck.validate("Trace_C19", TRACE_CFG, obs, canary=canary)
    return False


main("C19", run)
