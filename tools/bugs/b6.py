RC = "nidn/scripts/run_cfgs.py"
BATCH = '''
import subprocess, glob, pickle, toml, shutil
ROOT = os.environ["SCRATCH"]
def cfg(name, seed=3, **kw):
    c = nidn.load_default_cfg()
    c.update(dict(name=name, seed=seed, N_freq=2, N_layers=1, iterations=2, hidden_layers=1, n_neurons=4, model_type="siren", type="regression",
                  target_reflectance_spectrum=[0.4] * 2, target_transmittance_spectrum=[0.3] * 2))
    c.update(kw)
    return c
def batch(tag, files):
    root = os.path.join(ROOT, tag)
    for p, c in files.items():
        f = os.path.join(root, "cfgs", p)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, "w") as fh:
            toml.dump(c.toDict(), fh)
    os.makedirs(root + "/work", exist_ok=True)
    r = subprocess.run([sys.executable, "-W", "ignore", os.path.join(os.getcwd(), "nidn/scripts/run_cfgs.py"), "../cfgs"], cwd=root + "/work",
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    runs = []
    for d, _, fs in os.walk(root + "/results"):
        if any(f.endswith(".pkl") for f in fs) or any(f.endswith(".toml") for f in fs) or fs:
            runs.append((os.path.relpath(d, root + "/results"), sorted(fs)))
    return r.returncode, runs, root
'''
bug("batch-subfolders", "C24", [
 (RC, 'cfg_filepaths = glob(target_filepath + "/*.toml")', 'cfg_filepaths = glob(target_filepath + "/**/*.toml", recursive=True)')],
 "a folder with a subfolder that holds configuration files",
 "configurations of subfolders are trained and stored too",
 BATCH + '''
rc, runs, _ = batch("a", {"one.toml": cfg("one"), "old/two.toml": cfg("two")})
assert rc == 0
assert any("one_" in d for d, _ in runs), runs
assert not any("two_" in d for d, _ in runs), runs
''')
bug("batch-name-cut", "C24", [
 (RC, 'subfolder_name = cfg.name + "_" + dt_string', 'subfolder_name = os.path.splitext(cfg.name)[0] + "_" + dt_string')],
 "two runs whose names differ only after a dot (film.1 and film.2)",
 "runs of different names are stored in one folder, which holds the plots of one of them only",
 BATCH + '''
rc, runs, _ = batch("a", {"x.toml": cfg("film.1"), "y.toml": cfg("film.2", seed=8)})
assert rc == 0
assert any("film.1_" in d for d, _ in runs) and any("film.2_" in d for d, _ in runs), runs
''')
bug("batch-keeps-model", "C24", [
 (RC, """            cfg = DotMap(toml.load(cfg))
""", """            settings = DotMap(toml.load(cfg))
        if cfg_filepath != cfg_filepaths[0] and previous.model_type == settings.model_type:
            # Same kind of model, no need to build it again
            settings.model = previous.model
        cfg = previous = settings
""")],
 "two configurations with the same kind of model in one folder",
 "the second configuration goes on training the model of the first one instead of one of its own",
 BATCH + '''
def best(tag, files, name):
    rc, runs, root = batch(tag, files)
    assert rc == 0, rc
    saved = [os.path.join(d, f) for d, _, fs in os.walk(root + "/results") for f in fs if f.startswith(name + "_") and f.endswith(".pk")]
    assert len(saved) == 1, saved
    return [v.detach().tolist() for _, v in sorted(nidn.load_run(saved[0]).model.state_dict().items())]
A, B = cfg("aa"), cfg("bb", seed=9)
both = {"x.toml": A, "y.toml": B}
for n, c in (("aa", A), ("bb", B)):
    assert best("both" + n, both, n) == best("alone" + n, {"x.toml": c}, n), n
''')
bug("batch-goes-on", "C24", [
 (RC, '''        nidn.run_training(cfg)
''', '''        try:
            nidn.run_training(cfg)
        except Exception as error:
            logger.error("Skipping {}: {}".format(cfg_filepath, error))
            continue
''')],
 "an invalid configuration in the folder",
 "an invalid configuration is skipped and the batch reports success",
 BATCH + '''
rc, runs, _ = batch("a", {"x.toml": cfg("fine"), "y.toml": cfg("wrong", N_layers=-1)})
assert rc != 0, rc
rc, runs, _ = batch("b", {"x.toml": cfg("fine")})
assert rc == 0 and any("fine_" in d for d, _ in runs), (rc, runs)
''')
