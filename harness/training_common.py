"""Drives run_training with a scripted model (public API only) and records what it did."""
import common
from common import *

H = 10
LR0 = 2.0 ** -6
NAN_ROW = "nan"


def gen_cfg(lens, valids, renorms, runs, maxfail, cyclic=False, plateau=False, failat=(), h=H, patience=500):
    s = lambda v: "{" + ", ".join(map(str, v)) + "}"
    return """CONSTANTS H = %d Lens = %s Valids = %s Renorms = %s Runs = %d MaxFail = %d Cyclic = %s Plateau = %s FailAt = %s Patience = %d
INIT Init
NEXT Next
INVARIANTS BestIsBestValid ReturnsBest HalvedPerFailure LoggedExactly AllIterations
PROPERTIES RollBack StepMoves LrSteady LrNeverGrows BestNeverIncreases
CONSTRAINT Emit
""" % (h, s(lens), s(valids), s(renorms), runs, maxfail, str(cyclic).upper(), str(plateau).upper(), s(failat), patience)


TRACE_CFG = "CONSTANTS H = %d Patience = 500\nINIT Init\nNEXT Next\n"
FINE = {k: (2.0 + d * 1e-6, 0.125) for k, d in zip(range(1, 7), (0, -3, -1, 2, -2, 4))}      # losses about 10^-7 apart

# (real, imag) permittivity of the regression palette; losses r1 < v2 < r3 < v4 < r5 < v6
# (1, 3 and 5 are unphysical by about 0.5 %, 30 % and 0.2 %)
REG = {1: (1.0, -0.004), 2: (2.0, 0.125), 3: (3.0, -0.5), 4: (5.0, 0.125), 5: (6.0, -0.003), 6: (8.0, 0.125)}


def scripted_model(dim):
    import torch

    class Scripted(torch.nn.Module):
        """Returns rows[i] for every input point of iteration i. A new iteration starts when an input
        point is seen again, so the solver glue may evaluate the grid in one or several batches."""

        def __init__(self):
            super().__init__()
            self.probe = torch.nn.Parameter(torch.zeros(1, dtype=torch.float64))
            # full-precision start values: a snapshot rounded to single precision shows
            self.aux = torch.nn.Parameter(torch.tensor([0.1, 1 / 3, -math.pi], dtype=torch.float64))
            self.aux0 = self.aux.detach().clone()
            # gradients of very different sizes: clipping or accumulating gradients shows
            self.wild = torch.nn.Parameter(torch.zeros(2, dtype=torch.float64))
            self.wild.register_hook(lambda g: torch.tensor(self.wild_grad(len(self.evals) - 1), dtype=torch.float64))
            self.probe.register_hook(lambda g: torch.ones_like(g))
            self.aux.register_hook(lambda g: torch.full_like(g, -1.0))
            self.rows, self.evals, self.seen, self.aux_evals = [], [], set(), []

        @staticmethod
        def wild_grad(i):
            return [(3.0, -2e-3, 5e4, 0.5, -7e2)[i % 5], (-1e-6, 40.0, 1.0)[i % 3]]

        def begin(self, rows):
            self.rows, self.evals, self.seen, self.aux_evals = rows, [], set(), []

        def forward(self, x):
            keys = {tuple(round(float(v), 6) for v in p) for p in x}
            if not self.evals or (keys & self.seen):
                self.seen = set()
                self.evals.append(float(self.probe.detach()[0]))
                self.aux_evals.append([float(v) for v in self.aux.detach()])
            self.seen |= keys
            i = len(self.evals) - 1
            row = self.rows[i] if i < len(self.rows) else self.rows[-1]
            out = torch.tensor([row] * len(x), dtype=torch.float64)
            return out + 0.0 * self.probe + 0.0 * self.aux.sum() + 0.0 * self.wild.sum()

        def __deepcopy__(self, memo):
            raise RuntimeError("not copied")

    return Scripted()


def make_cfg(case):
    import nidn
    c = nidn.load_default_cfg()
    c.update(dict(name="scripted", N_layers=1, N_freq=2, Nx=1, Ny=1, physical_wavelength_range=[2e-6, 4e-6],
                  real_min_eps=0.0, real_max_eps=16.0, imag_min_eps=-8.0, imag_max_eps=8.0,
                  PER_LAYER_THICKNESS=[0.5], avoid_zero_eps=False, learning_rate=case["lr"],
                  L=float(case["L"]), absorption_loss=case["abs"], type=case["type"],
                  reg_loss_weight=case["wreg"] / 10000.0, use_regularization_loss=case["wreg_on"],
                  target_reflectance_spectrum=[v / 10.0 ** (8 if case["fine"] else 4) for v in case["tr"]],
                  target_transmittance_spectrum=[v / 10.0 ** (8 if case["fine"] else 4) for v in case["tt"]]))
    return c


def palette(case):
    """rank -> (output row of the model, R, T, P), via the public single-shot API on a fresh configuration"""
    import nidn, torch
    from nidn.training.model.model_to_eps_grid import model_to_eps_grid
    pal, U = {}, 10 ** (8 if case["fine"] else 4)
    for k in range(1, 7):
        c = make_cfg(case)
        nidn.get_frequency_points(c)
        if case["type"] == "regression":
            re, im = (FINE if case["fine"] else REG)[k]
            row = [re / 16.0, (im + 8.0) / 16.0]
        else:
            from nidn.materials.material_collection import MaterialCollection
            c.material_collection = MaterialCollection(c.target_frequencies)
            c.N_materials = c.material_collection.N_materials
            n = c.N_materials
            row = [0.0] * n
            # sharp and ambiguous mixtures, so that regularisation and spectrum order them differently
            if k % 2 == 0:
                row[k % n] = 0.9
            else:
                row[k % n] = 0.5
                row[(k + 1) % n] = 0.45
                row[(k + 3) % n] = 0.40
        m = scripted_model(len(row))
        m.begin([row])
        with torch.no_grad():
            eps, ids = model_to_eps_grid(m, c)
            R, T = nidn.compute_spectrum(eps, c)
        pal[k] = (row, [fx(v, U) for v in R], [fx(v, U) for v in T],
                  [] if ids is None else [fx(v, U) for v in ids.reshape(-1)])
    return pal


_PAL = {}


def drive(case):
    import nidn, torch
    from torch.optim.optimizer import register_optimizer_step_pre_hook
    UNIT = case["lr"] / 2 ** case["H"]
    U = 10 ** (8 if case["fine"] else 4)
    key = json.dumps([case[k] for k in ("type", "L", "abs", "wreg", "wreg_on", "tr", "tt", "fine")])
    if key not in _PAL:
        _PAL[key] = palette(case)
    pal = _PAL[key]
    o = {k: case[k] for k in ("type", "L", "abs", "tr", "tt", "fine", "H")}
    o["wreg"] = case["wreg"] if case["wreg_on"] else 0
    o["runs"] = []
    o["script"] = case["script"]
    width = len(pal[1][0])
    cfg = make_cfg(case)
    model = scripted_model(width)
    cfg.model = model
    torch.manual_seed(case.get("pre_seed", 3))
    for seg in case["script"]:
        rows, ev = [], []
        for e in seg:
            if e["o"] == "fail":
                rows.append([float("nan")] * width)
                ev.append({"o": "fail", "R": [], "T": [], "P": []})
            else:
                row, R, T, P = pal[e["v"]]
                rows.append(row)
                ev.append({"o": e["o"], "R": R, "T": T, "P": P if case["wreg_on"] else []})
        model.begin(rows)
        cfg.iterations = len(seg)
        grads = []
        handle = register_optimizer_step_pre_hook(
            lambda opt, *a, **k: grads.append((len(model.evals) - 1, None if model.wild.grad is None else model.wild.grad.tolist())))
        try:
            oc, res = outcome(nidn.run_training, cfg)
        finally:
            handle.remove()
        wild = [i for i, g in grads if g != model.wild_grad(i)]
        r = {"ev": ev, "outcome": oc, "evals": [fx(-v / UNIT, 1) for v in model.evals],
             "steps": [i + 1 for i, g in grads], "wrong_grad": len(wild), "final": NAN, "best": NAN, "loss": [], "l1": [], "wavg": []}
        if oc == "ok":
            sd = res.best_model_state_dict
            r["final"] = fx(-float(res.model.state_dict()["probe"][0]) / UNIT, 1)
            r["best"] = fx(-float(sd["probe"][0]) / UNIT, 1)
            # the second parameter moves in the opposite direction: a partial restore shows as a sentinel
            for k, d in (("final", res.model.state_dict()), ("best", sd)):
                if any(abs(float(v)) > 1e-12 for v in d["aux"] - model.aux0 + d["probe"]):
                    r[k] = NAN
            r["loss"] = [fx(v, U) for v in res.results.loss_log]
            r["l1"] = [fx(v, U) for v in res.results.L1_errs]
            r["wavg"] = [fx(v, U) for v in res.results.weighted_average_log]
        o["runs"].append(r)
        if oc != "ok":
            break
    return o


BASES = [
    dict(type="regression", L=1, abs=False, wreg=500, wreg_on=True, tr=[0, 0], tt=[10000, 10000]),
    dict(type="regression", L=2, abs=True, wreg=500, wreg_on=True, tr=[0, 0], tt=[10000, 10000]),
    dict(type="classification", L=1, abs=False, wreg=8000, wreg_on=True, tr=[0, 2000], tt=[10000, 3000]),
    dict(type="classification", L=2, abs=True, wreg=20000, wreg_on=True, tr=[9000, 500], tt=[1000, 5000]),
    dict(type="classification", L=1, abs=False, wreg=8000, wreg_on=False, tr=[0, 2000], tt=[10000, 3000]),
    dict(type="classification", L=3, abs=False, wreg=8000, wreg_on=True, tr=[0, 2000], tt=[10000, 3000]),
    dict(type="regression", L=3, abs=True, wreg=500, wreg_on=True, tr=[0, 0], tt=[10000, 10000]),
]


def histories(ck, n_reg, n_cls, n_again):
    """scripts from the model, bound to loss settings"""
    reg = ck.cases("Gen_Training", gen_cfg([1, 2, 3], [2, 4, 6], [1, 3, 5], 1, 6))
    reg += ck.cases("Gen_Training", gen_cfg([4, 5], [2, 4, 6], [1, 3, 5], 1, 6), n=n_reg)
    cls = ck.cases("Gen_Training", gen_cfg([1, 2, 3], [1, 2, 3, 4, 5, 6], [], 1, 6))
    cls += ck.cases("Gen_Training", gen_cfg([4], [1, 2, 3, 4, 5, 6], [], 1, 6), n=n_cls)
    again = ck.cases("Gen_Training", gen_cfg([1, 2], [2, 6], [3], 2, 6), n=n_again)
    long_ = ck.cases("Gen_Training", gen_cfg([23, 43], [2, 4, 6], [], 1, 1, True))
    if not ck.thorough:
        long_ = [c for i, c in enumerate(long_) if i % 8 == 0]
    out = []
    for i, c in enumerate(reg):
        out.append(dict(BASES[(0, 1, 6)[i % 3]], script=c["script"]))
    for i, c in enumerate(cls):
        out.append(dict(BASES[2 + i % 4], script=c["script"]))
    for i, c in enumerate(again + long_):
        out.append(dict(BASES[0], script=c["script"], pre_seed=i))
    # improvements and deteriorations of 10^-7, which the log line does not even show
    close = ck.cases("Gen_Training", gen_cfg([1, 2, 3, 4], [1, 2, 3, 4], [], 1, 1), n=4000 if ck.thorough else 300)
    for i, c in enumerate(close):
        out.append(dict(BASES[0], script=c["script"], fine=True, wreg_on=False, tr=[0, 0], tt=[100000000] * 2))
    for i, c in enumerate(out):
        c.setdefault("fine", False)
        c["H"] = H
        c["lr"] = LR0 if i % 4 else (2.0 ** -21, 2.0 ** -1, 2.0 ** -13)[(i // 4) % 3]
    # longer than the patience of the scheduler
    ck.model("Gen_Training", gen_cfg([1, 2, 3, 4, 5], [2, 4], [1], 1, 2, patience=1))
    flat = ck.cases("Gen_Training", gen_cfg([1130], [4, 6], [], 1, 1, plateau=True, failat=(700,), h=20))
    for c in flat:
        out.insert(0, dict(BASES[0], script=c["script"], fine=False, H=20, lr=LR0))
    return out


def judge(ck, obs, canary):
    for h in (20, H):
        ck.validate("Trace_Training", TRACE_CFG % h, [o for o in obs if o["H"] == h], canary=canary)
