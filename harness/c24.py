from common import *

TRACE_CFG = "INIT Init\nNEXT Next\nPOSTCONDITION Post\n"
GEN = "CONSTANTS Max = %d Variants = {%s} Names = {%s}\nINIT Init\nNEXT Next\nINVARIANTS Complete Sound FailsOnlyIfWrong\nCONSTRAINT Emit\n"
SCRIPT = "nidn/scripts/run_cfgs.py"
NAMES = {"p": "p", "q": "p q", "r": "p.1"}


def settings(v, name):
    import nidn
    c = nidn.load_default_cfg()
    nf = [2, 1, 4, 3][v % 4]
    c.update(dict(name=name, N_freq=nf, N_layers=1 + v % 2, iterations=[2, 3][v % 2], hidden_layers=1, n_neurons=4, seed=7 + v,
                  model_type=["siren", "nerf", "voxel"][v % 3], type="classification" if v % 3 == 1 else "regression",
                  target_reflectance_spectrum=[0.4] * nf, target_transmittance_spectrum=[0.3] * nf))
    if v % 2:
        c.update(dict(add_noise=True, noise_scale=0.01, absorption_loss=True, freq_distribution="log", physical_wavelength_range=[2e-6, 9e-6],
                      L=2.0, learning_rate=1e-2, PER_LAYER_THICKNESS=[0.4], TRCWA_TOP_LAYER_EPS=1.5))
    if v % 4 == 2:
        c.update(dict(Nx=2, Ny=2, TRCWA_NG=1))
    if v % 5 == 4:
        c.update(dict(solver="FDTD", FDTD_niter=60, iterations=1, N_freq=1, Nx=1, Ny=1, FDTD_source_position=[0.9, 0.1], FDTD_pml_thickness=0.7,
                      FDTD_free_space_distance=0.6, target_reflectance_spectrum=[0.4], target_transmittance_spectrum=[0.3]))
    return c


def write(path, c):
    import toml
    with open(path, "w") as fh:
        toml.dump(c.toDict(), fh)


def pngs(folder):
    """plots of a folder: names and contents"""
    return hashlib.md5(json.dumps([[f, hashlib.md5(open(os.path.join(folder, f), "rb").read()).hexdigest()]
                                   for f in sorted(os.listdir(folder)) if f.endswith(".png")]).encode()).hexdigest()


def alone(a):
    """a configuration trained, saved and plotted by hand in a process of its own"""
    v, name, scratch = a
    import matplotlib
    matplotlib.use("Agg")
    import nidn, toml
    from dotmap import DotMap
    from c19_content import content
    d = tempfile.mkdtemp(prefix="c24a_", dir=scratch)
    write(d + "/c.toml", settings(v, name))
    c = DotMap(toml.load(d + "/c.toml"))
    nidn.run_training(c)
    r = content(c)
    nidn.save_all_plots(c, d + "/plots")
    return {"run": r, "plots": pngs(d + "/plots"), "n": len(os.listdir(d + "/plots"))}


def tree(root):
    return {os.path.relpath(os.path.join(d, f), root): hashlib.md5(open(os.path.join(d, f), "rb").read()).hexdigest()
            for d, _, fs in os.walk(root) for f in fs}


def batch(case):
    import nidn
    from c19_content import content
    root = tempfile.mkdtemp(prefix="c24_", dir=case["scratch"])
    work, cfgs, results = (os.path.join(root, d) for d in ("work", "my cfgs", "results"))
    o = {"files": case["files"], "noarg": case["noarg"], "runs": [], "plots": [], "stray": [], "how": case["how"]}
    try:
        os.makedirs(work)
        os.makedirs(cfgs)
        for i, f in enumerate(case["files"]):
            c = settings(f["v"], NAMES[f["name"]])
            p = os.path.join(cfgs, "%s%d.toml" % ("zkafqmc"[(i * 3 + case["n"]) % 7], i))
            if f["kind"] == "bad":
                c.N_layers = -1
            elif f["kind"] == "other":
                p = p.replace(".toml", (".txt", ".toml.bak")[case["n"] % 2])
            elif f["kind"] == "deep":
                os.makedirs(os.path.join(cfgs, "sub"), exist_ok=True)
                p = os.path.join(cfgs, "sub", "d%d.toml" % i)
            write(p, c)
        before = tree(cfgs)
        env = dict(os.environ, PYTHONPATH=REPO, MPLBACKEND="Agg", OMP_NUM_THREADS="1")
        arg = [] if case["noarg"] else [[cfgs, cfgs + "/", "../my cfgs"][case["how"]]]
        p = subprocess.run([sys.executable, "-W", "ignore", os.path.join(REPO, SCRIPT)] + arg, cwd=work, env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=500)
        o["ok"], o["error"] = p.returncode == 0, p.stderr[-300:] if p.returncode else ""
        o["kept"] = tree(cfgs) == before
        o["stray"] = [f for f in tree(root) if not f.startswith(("my cfgs", "results"))]
        for d, _, fs in os.walk(results):
            rel = os.path.relpath(d, results).split(os.sep)
            for f in fs:
                if f.endswith(".pk"):
                    r = nidn.load_run(os.path.join(d, f))
                    o["runs"].append({"id": content(r), "name": r.name, "top": rel[0],
                                      "dir": len(rel) == 2 and rel[0].endswith("_results") and rel[1].startswith(r.name + "_") and f.startswith(r.name + "_")})
            if any(f.endswith(".png") for f in fs):
                # the folder is <name>_<day-month-year hours-minutes-seconds>
                o["plots"].append({"name": rel[-1].rsplit("_", 1)[0], "id": pngs(d)})
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return o


def either(a):
    return alone(a[1]) if a[0] == "alone" else batch(a[1])


def canary(o):
    if o["runs"] and o["ok"]:
        o["runs"][0]["id"] = 999
        return o
    return None


def run(ck):
    nidn_import()
    vs = "1, 2, 3, 4, 5, 6" if ck.thorough else "1, 2, 3, 4"
    ck.model("Gen_C24", GEN % (4, "1, 2", '"p", "q"'), workers=4)
    cs = ck.cases("Gen_C24", GEN % (3, vs, '"p", "q", "r"'), workers=4)
    key = lambda c: json.dumps(sorted((f["kind"], f["v"], f["name"]) for f in c["files"]))
    ck.rng.shuffle(cs)
    ok = lambda c: sum(f["kind"] == "cfg" for f in c["files"])
    same = lambda c: len({f["name"] for f in c["files"] if f["kind"] == "cfg"}) < ok(c)
    kinds = lambda c, k: any(f["kind"] == k for f in c["files"])
    pick = lambda f, n: [c for c in cs if f(c)][:n]
    n = 8 if ck.thorough else 1
    chosen = pick(lambda c: not c["files"], 1) + pick(lambda c: ok(c) == 3 and not same(c), 3 * n) + pick(lambda c: ok(c) == 3 and same(c), 2 * n) + \
        pick(lambda c: ok(c) == 2 and kinds(c, "bad"), 2 * n) + pick(lambda c: ok(c) == 2 and kinds(c, "other"), 2 * n) + \
        pick(lambda c: ok(c) == 2 and kinds(c, "deep"), n) + pick(lambda c: ok(c) == 1, 2 * n) + pick(lambda c: ok(c) == 0, 2 * n)
    jobs = [{"files": c["files"], "noarg": False, "how": i % 3, "n": i, "scratch": ck.work} for i, c in enumerate(chosen)]
    jobs.append({"files": [], "noarg": True, "how": 0, "n": 0, "scratch": ck.work})
    jobs.sort(key=lambda j: -len(j["files"]))
    refs = sorted({(f["v"], f["name"]) for j in jobs for f in j["files"] if f["kind"] == "cfg"})
    res = pmap(either, [("batch", j) for j in jobs] + [("alone", (v, NAMES[n], ck.work)) for v, n in refs], chunksize=1)
    ref = dict(zip(refs, res[len(jobs):]))
    obs, ids = res[:len(jobs)], {}
    num = lambda t: ids.setdefault(t, len(ids))
    inv = {v: k for k, v in NAMES.items()}
    for o in obs:
        for f in o["files"]:
            r = ref.get((f["v"], f["name"])) if f["kind"] == "cfg" else None
            f["alone"], f["plots"] = (num(r["run"]), num(r["plots"])) if r else (-1, -1)
        for r in o["runs"]:
            r["id"], r["name"] = num(r["id"]), inv.get(r["name"], r["name"])
        for q in o["plots"]:
            q["id"], q["name"] = num(q["id"]), inv.get(q["name"], q["name"])
    ck.extra["batches"], ck.extra["reference_runs"] = len(jobs), len(refs)
    ck.validate("Trace_C24", TRACE_CFG, obs, canary=canary)
    ck.assumptions += ["equal settings and seed give equal plots, byte for byte, on one machine (matplotlib's Agg)"]
    return False


if __name__ == "__main__":
    main("C24", run)
