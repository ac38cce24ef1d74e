MC = "nidn/materials/material_collection.py"
TRAIN = "nidn/training/run_training.py"
FAKE = '''
def small_cfg(**kw):
    cfg = nidn.load_default_cfg()
    cfg.N_freq = 2; cfg.Nx = cfg.Ny = 1; cfg.N_layers = 1; cfg.eps_oversampling = 1
    cfg.hidden_layers = 1; cfg.n_neurons = 4; cfg.learning_rate = 0.05
    cfg.target_reflectance_spectrum = [0.5, 0.5]; cfg.target_transmittance_spectrum = [0.2, 0.2]
    for k, v in kw.items(): cfg[k] = v
    return cfg

import nidn.training.run_training
RT = sys.modules["nidn.training.run_training"]

def scripted(cfg, script):
    """run a training whose solver follows a script: loss value, ("renorm",) or None (ValueError)"""
    seen = []
    def fake(eps, cfg_, validate_cfg=True):
        k = len(seen)
        seen.append({n: p.detach().clone() for n, p in cfg.model.state_dict().items()})
        s = script[k]
        if s is None: raise ValueError("solver")
        r, t = s
        z = 0 * (eps.real.sum() + eps.imag.sum())
        g = 1e-3 * (eps.real.mean() + eps.imag.mean())
        g = g - g.detach()
        return [r + z + g] * cfg.N_freq, [t + z + g] * cfg.N_freq
    old = RT.compute_spectrum
    RT.compute_spectrum = fake
    try:
        cfg.iterations = len(script)
        nidn.run_training(cfg)
    finally:
        RT.compute_spectrum = old
    return seen

def same(a, b): return all(torch.equal(a[k], b[k]) for k in a)
'''
bug("train-best-after-step", "C01", [
 (TRAIN, '''        scheduler.step(loss.item())
''', '''        scheduler.step(run_cfg.results.loss_log[-1])

        # Keep the best state once its iteration is complete
        if loss is best_loss:
            run_cfg.best_model_state_dict = deepcopy(run_cfg.model.state_dict())
''')],
 "a training whose best iteration is inspected parameter by parameter",
 "the returned parameters are those after the optimiser step that followed the best loss, not those that produced it",
 FAKE + '''
cfg = small_cfg()
seen = scripted(cfg, [(0.1, 0.2), (0.5, 0.2), (0.9, 0.0)])
assert same(seen[1], cfg.model.state_dict()), "returned model is not the best evaluated one"
''')
bug("train-best-spectrum-only", "C01", [
 (TRAIN, "            best_loss = loss\n", "            best_loss = spectrum_loss\n")],
 "classification with regularisation loss, where a later iteration improves the total loss but not below the earlier spectrum loss",
 "the best total loss is compared with a stored spectrum loss, so better models are not stored",
 FAKE + '''
cfg = small_cfg(type="classification", use_regularization_loss=True, reg_loss_weight=50.0, iterations=2)
seen = scripted(cfg, [(0.30, 0.2), (0.32, 0.2), (0.34, 0.2), (0.36, 0.2)])
best = int(np.argmin(cfg.results.loss_log))
assert best > 0, cfg.results.loss_log
assert same(seen[best], cfg.model.state_dict()), "returned model is not the best evaluated one"
''')
bug("train-rollback-new-adam", "C02", [
 (TRAIN, '''            optimizer.param_groups[0]["lr"] *= 0.5
''', '''            optimizer.param_groups[0]["lr"] = run_cfg.learning_rate * 0.5
''')],
 "two solver failures in one training run",
 "the second solver failure no longer halves the learning rate",
 FAKE + '''
cfg = small_cfg(learning_rate=0.08)
opts = []
orig = torch.optim.Adam
class Spy(orig):
    def __init__(self, *a, **k):
        super().__init__(*a, **k); opts.append(self)
torch.optim.Adam = Spy
scripted(cfg, [(0.1, 0.2), None, (0.2, 0.2), None, (0.1, 0.2)])
lr = opts[-1].param_groups[0]["lr"]
assert abs(lr - 0.02) < 1e-12, lr
''')
bug("train-no-zero-grad-on-renorm", "C02", [
 (TRAIN, '''        optimizer.zero_grad()
''', '''        if not renormalized:
            optimizer.zero_grad()
''')],
 "an iteration whose spectra had to be renormalised, following a normal one",
 "the gradient of an unphysical iteration is added to the previous iteration's gradient",
 FAKE + '''
cfg = small_cfg()
grads = []
orig = torch.optim.Adam.step
def step(self, *a, **k):
    grads.append([p.grad.clone() for p in self.param_groups[0]["params"]]); return orig(self, *a, **k)
torch.optim.Adam.step = step
scripted(cfg, [(0.9, 0.0), (0.9, 0.3)])
# R-target and T-target have opposite signs of slope in the first and same magnitude in both iterations
cfg2 = small_cfg(); cfg2.model = copy.deepcopy(cfg.model)
g = grads[:]; grads.clear()
def fake(eps, c, validate_cfg=True):
    z = 1e-3 * (eps.real.mean() + eps.imag.mean()); z = z - z.detach()
    return [0.9 + z] * 2, [0.3 + z] * 2
n0 = sum(float(x.abs().sum()) for x in g[0]); n1 = sum(float(x.abs().sum()) for x in g[1])
RT.compute_spectrum = fake
seenstate = {}
# same parameters as before iteration 2: redo iteration 1 alone, then evaluate only iteration 2
cfg3 = small_cfg(); cfg3.iterations = 1
RT.compute_spectrum = lambda eps, c, validate_cfg=True: fake(eps, c)
import torch.nn as nn
model = None
first = small_cfg()
state = scripted(first, [(0.9, 0.0), (0.9, 0.3)])[1]
grads.clear()
first.model.load_state_dict(state)
RT.compute_spectrum = fake
first.iterations = 1
nidn.run_training(first)
ref = grads[-1]
assert all(torch.allclose(a, b, rtol=1e-6, atol=1e-14) for a, b in zip(g[1], ref)), "gradient is not this iteration's own"
''')
SPL = "nidn/training/losses/spectrum_loss.py"
bug("loss-absorption-before-renorm", "C03", [
 (SPL, '''            prod_A = 1 - prod_T - prod_R
''', '''            prod_A = (1 - prod_T - prod_R).clip(0, 1)
'''),
 (SPL, '''            target_A = 1 - target_T - target_R
''', '''            target_A = max(1 - target_T - target_R, 0.0)
''')],
 "absorption loss with targets whose R+T exceeds 1",
 "the absorption term no longer equals |A-A*|^L",
 '''
from nidn.training.losses.spectrum_loss import _spectrum_loss_fn
R, T = [torch.tensor(0.2), torch.tensor(0.3)], [torch.tensor(0.1), torch.tensor(0.2)]
l, f = _spectrum_loss_fn(R, T, [0.8, 0.1], [0.4, 0.1], [1.0, 2.0], 2.0, True)
e = sum(abs(a - b) ** 2 for a, b in [(0.2, 0.8), (0.3, 0.1), (0.1, 0.4), (0.2, 0.1), (0.7, -0.2), (0.5, 0.8)]) / 6
assert abs(float(l) - e) < 1e-6, (float(l), e)
''')
bug("loss-likelihood-dims", "C03", [
 ("nidn/training/losses/likelihood_regularization_loss.py", '''        distance_to_one = torch.pow(1 - material_predictions, L)
        distance_to_zero = torch.pow(material_predictions, L)
        distances = torch.minimum(distance_to_one, distance_to_zero)
''', '''        distances = torch.minimum(1 - material_predictions, material_predictions)
        distances = distances**2 if L == 2 else distances
''')],
 "an exponent L other than 1 and 2",
 "the exponent is ignored in the likelihood regularisation",
 '''
from nidn.training.losses.likelihood_regularization_loss import _likelihood_regularization_loss_fn as f
p = torch.tensor([[0.1, 0.9], [0.4, 0.6]])
for L in (0.5, 1, 2, 3):
    e = float(torch.mean(torch.minimum(p ** L, (1 - p) ** L)))
    assert abs(float(f(p, L)) - e) < 1e-6, L
''')
VAL = "nidn/utils/validate_config.py"
bug("cfg-oversampling-ny", "C04", [
 (VAL, '''    if not cfg.Ny % cfg.eps_oversampling == 0:
''', '''    if cfg.Ny > cfg.eps_oversampling and not cfg.Ny % cfg.eps_oversampling == 0:
''')],
 "Ny smaller than eps_oversampling with Nx a multiple of it",
 "a configuration whose Ny is not a multiple of the oversampling is accepted",
 '''
cfg = nidn.load_default_cfg()
cfg.Nx, cfg.Ny, cfg.eps_oversampling = 4, 3, 4
try:
    nidn.validate_config(cfg) if hasattr(nidn, "validate_config") else __import__("nidn.utils.validate_config", fromlist=["x"])._validate_config(cfg)
except RuntimeError:
    sys.exit(0)
sys.exit(1)
''')
bug("cfg-valueerror", "C04", [
 (VAL, '''            raise RuntimeError(f"{key} must be a positive integer")

    if not cfg.Nx''', '''            raise ValueError(f"{key} must be a positive integer, got {cfg[key]}")

    if not cfg.Nx''')],
 "a non-positive count",
 "bad values raise ValueError, the class that the training loop swallows",
 '''
cfg = nidn.load_default_cfg()
cfg.N_freq = 0
try:
    __import__("nidn.utils.validate_config", fromlist=["x"])._validate_config(cfg)
except RuntimeError:
    sys.exit(0)
except BaseException as e:
    print(type(e)); sys.exit(1)
sys.exit(1)
''')
FREQ = "nidn/trcwa/compute_target_frequencies.py"
bug("freq-log-geom", "C05", [
 (FREQ, '''        target_frequencies = np.logspace(logval_min, logval_max, num=N_freq, base=10)
''', '''        target_frequencies = np.logspace(
            logval_min, logval_max, num=N_freq, base=10, endpoint=N_freq < 50
        )
''')],
 "log distribution with 50 or more frequencies",
 "the shortest wavelength is not covered and the ratio changes",
 '''
f = nidn.compute_target_frequencies(1e-6, 1e-5, 60, "log")
assert abs(f[-1] - 1.0) < 1e-9 and abs(f[0] - 0.1) < 1e-9, (f[0], f[-1])
''')
bug("material-skip-prefix", "C06", [
 (MC, '''            if to_skip is not None and name in to_skip:
''', '''            if to_skip is not None and any(name.startswith(s) for s in to_skip):
''')],
 "a skip list naming a material whose name is a prefix of another's",
 "materials that were not in the skip list are missing",
 '''
from nidn.materials.material_collection import MaterialCollection
full = MaterialCollection([1.0]).material_names
n = 0
for s in full:
    got = MaterialCollection([1.0], to_skip=[s]).material_names
    assert sorted(got) == sorted(x for x in full if x != s), s
got = MaterialCollection([1.0], to_skip=[full[0][:1]]).material_names
assert sorted(got) == sorted(x for x in full if x != full[0][:1])
''')
bug("closest-material-min-freq", "C06", [
 ("nidn/materials/find_closest_material.py", '''    comparisons = comparisons.mean(dim=3)  # Average over frequencies
''', '''    comparisons = comparisons.pow(2).mean(dim=3).sqrt()  # Average over frequencies
''')],
 "a grid point whose distances to two materials rank differently in mean and in root mean square",
 "distance (and possibly index) is no longer the frequency-averaged |eps difference|",
 '''
from nidn.materials.find_closest_material import _find_closest_material
from nidn.materials.material_collection import MaterialCollection
cfg = nidn.load_default_cfg(); cfg.Nx = cfg.Ny = 1; cfg.N_layers = 1; cfg.N_freq = 2
c = MaterialCollection([0.5, 2.0])
eps = torch.tensor([2.0 + 0j, 7.0 + 1j]).reshape(1, 1, 1, 2)
d, i = _find_closest_material(eps, cfg, c)
ref = [float((eps[0, 0, 0] - c[n]).abs().mean()) for n in c.material_names]
assert abs(float(d) - min(ref)) < 1e-5 * max(1, min(ref)), (float(d), min(ref))
assert int(i) == int(np.argmin(ref))
''')
LB = "nidn/materials/layer_builder.py"
bug("layer-square-nonsquare", "C07", [
 (LB, '''        x0 = torch.linspace(0, 1, self.run_cfg.Nx)
        y0 = torch.linspace(0, 1, self.run_cfg.Ny)
''', '''        x0 = torch.arange(self.run_cfg.Nx) / max(self.run_cfg.Nx - 1, 1)
        y0 = torch.arange(self.run_cfg.Ny) / max(self.run_cfg.Nx - 1, 1)
''')],
 "a non-square grid",
 "y coordinates are scaled by Nx, so inner regions are misplaced when Nx != Ny",
 '''
cfg = nidn.load_default_cfg(); cfg.Nx, cfg.Ny, cfg.N_freq = 4, 7, 1
cfg.target_frequencies = np.array([1.0])
b = nidn.LayerBuilder(cfg)
m = b.material_collection.material_names
e = b.build_squared_layer(m[0], m[1], 0.2)
for i in range(4):
    for j in range(7):
        x, y = i / 3, j / 6
        k = m[1] if 0.2 < x < 0.8 and 0.2 < y < 0.8 else m[0]
        assert torch.allclose(e[i, j], b.material_collection[k].to(e.dtype)), (i, j)
''')
bug("layer-uniform-cache", "C07", [
 (LB, '''        eps, _, _ = self._setup_grid_and_materials()

        eps[:, :] = self.material_collection[grid_material]

        return eps
''', '''        if not hasattr(self, "_uniform"):
            self._uniform, _, _ = self._setup_grid_and_materials()

        eps = self._uniform
        eps[:, :] = self.material_collection[grid_material]

        return eps
''')],
 "two uniform layers built by one builder",
 "a second build overwrites the first layer",
 '''
cfg = nidn.load_default_cfg(); cfg.Nx, cfg.Ny, cfg.N_freq = 2, 2, 1
cfg.target_frequencies = np.array([1.0])
b = nidn.LayerBuilder(cfg); m = b.material_collection.material_names
a = b.build_uniform_layer(m[0]); ref = a.clone(); c = b.build_uniform_layer(m[1])
assert torch.equal(a, ref)
''')
MG = "nidn/training/model/model_to_eps_grid.py"
bug("eps-oversample-dims", "C08", [
 (MG, '''        out = torch.repeat_interleave(out, run_cfg.eps_oversampling, dim=0)
        out = torch.repeat_interleave(out, run_cfg.eps_oversampling, dim=1)

        # Initialize''', '''        out = out.repeat(run_cfg.eps_oversampling, run_cfg.eps_oversampling, 1, 1, 1)

        # Initialize''')],
 "eps_oversampling > 1 on a grid with more than one block",
 "the coarse pattern is tiled instead of each block being enlarged",
 '''
cfg = nidn.load_default_cfg()
cfg.Nx = cfg.Ny = 4; cfg.eps_oversampling = 2; cfg.N_layers = 1; cfg.N_freq = 1
cfg.target_frequencies = np.array([1.0]); cfg.out_features = 2; cfg.add_noise = False
torch.manual_seed(0)
m = nidn.training.model.init_network.init_network(cfg)
e, _ = nidn.model_to_eps_grid(m, cfg)
assert torch.equal(e[0, 0], e[1, 1]) and torch.equal(e[2, 2], e[3, 3]) and not torch.equal(e[0, 0], e[2, 2])
''')
bug("class-mean-after-softmax", "C09", [
 (MG, '''    # We take mean over the frequency dimension in determining the fitting
    out = torch.mean(out, dim=3)

''', ''),
 (MG, '''    material_id = torch.divide(material_id, material_id.sum(-1).unsqueeze(-1))

    # Convert''', '''    # We take mean over the frequency dimension in determining the fitting
    material_id = torch.mean(material_id, dim=3)
    material_id = torch.divide(material_id, material_id.sum(-1).unsqueeze(-1))

    # Convert''')],
 "likelihoods that differ between frequencies",
 "probabilities are the mean of softmaxes instead of the softmax of the averaged likelihood",
 '''
from nidn.materials.material_collection import MaterialCollection
cfg = nidn.load_default_cfg(); cfg.type = "classification"
cfg.Nx = cfg.Ny = 1; cfg.eps_oversampling = 1; cfg.N_layers = 1; cfg.N_freq = 2; cfg.add_noise = False
cfg.target_frequencies = np.array([1.0, 2.0]); cfg.material_collection = MaterialCollection(cfg.target_frequencies)
n = cfg.N_materials = cfg.material_collection.N_materials
out = torch.rand(2, n)
e, p = nidn.model_to_eps_grid(lambda x: out, cfg)
q = torch.softmax(16 * out.mean(0), 0)
assert torch.allclose(p.reshape(-1), q, atol=1e-5)
''')
bug("class-zero-avoid-copy", "C09", [
 (MG, '''    indices = torch.logical_and(eps.real < cutoff, eps.real > -cutoff)
    eps.real[indices] = cutoff * torch.sign(eps.real[indices])
''', '''    indices = torch.logical_and(eps.real < cutoff, eps.real > -cutoff)
    eps.real[indices] = cutoff
''')],
 "a mixture whose real permittivity is slightly negative",
 "slightly negative real parts flip their sign to +0.01 instead of -0.01",
 '''
cfg = nidn.load_default_cfg(); cfg.type = "classification"
cfg.Nx = cfg.Ny = 1; cfg.eps_oversampling = 1; cfg.N_layers = 1; cfg.N_freq = 1; cfg.add_noise = False
cfg.avoid_zero_eps = True
cfg.target_frequencies = np.array([1.0])
cfg.material_collection = DotMap(epsilon_matrix=torch.tensor([[-0.005 + 1j], [-0.005 + 1j]]))
cfg.N_materials = 2
e, p = nidn.model_to_eps_grid(lambda x: torch.tensor([[0.3, 0.6]]), cfg)
assert abs(float(e.real) + 0.01) < 1e-6, e
''')
bug("rcwa-thickness-index", "C10", [
 ("nidn/trcwa/init_trcwa.py", '''            thickness = run_cfg.PER_LAYER_THICKNESS[layer]
''', '''            thickness = run_cfg.PER_LAYER_THICKNESS[N_layers - 1 - layer]
''')],
 "different thicknesses per layer",
 "thicknesses are assigned to the layers in reverse order",
 '''
def spec(eps, th):
    cfg = nidn.load_default_cfg(); cfg.solver = "TRCWA"; cfg.Nx = cfg.Ny = 1
    cfg.N_layers = len(eps); cfg.N_freq = 1; cfg.PER_LAYER_THICKNESS = th; cfg.target_frequencies = np.array([0.7])
    g = torch.zeros(1, 1, len(eps), 1, dtype=torch.cdouble)
    for i, e in enumerate(eps): g[0, 0, i, 0] = e
    R, T = nidn.compute_spectrum(g, cfg); return float(R[0]), float(T[0])
def tmm(eps, th, f):
    M = np.eye(2, dtype=complex); k = 2 * np.pi * f
    for e, d in zip(eps, th):
        n = np.sqrt(complex(e)); p = n * k * d
        M = M @ np.array([[np.cos(p), -1j * np.sin(p) / n], [-1j * n * np.sin(p), np.cos(p)]])
    a, b, c, d = M.ravel(); r = (a + b - c - d) / (a + b + c + d); t = 2 / (a + b + c + d)
    return abs(r) ** 2, abs(t) ** 2
e, d = [9.0, 2.0, 4.0], [0.1, 0.25, 0.4]
assert np.allclose(spec(e, d), tmm(e, d, 0.7), atol=1e-3), (spec(e, d), tmm(e, d, 0.7))
''')
bug("rcwa-bottom-flux", "C10", [
 ("nidn/trcwa/init_trcwa.py", '''        thickness=1.0, epsilon=torch.tensor(run_cfg.TRCWA_BOTTOM_LAYER_EPS)
''', '''        thickness=1.0,
        epsilon=torch.tensor(
            max(run_cfg.TRCWA_BOTTOM_LAYER_EPS, run_cfg.TRCWA_TOP_LAYER_EPS)
        ),
''')],
 "a bottom half-space with a smaller permittivity than the top one",
 "the bottom half space is replaced by the denser of the two",
 '''
cfg = nidn.load_default_cfg(); cfg.solver = "TRCWA"; cfg.Nx = cfg.Ny = 1
cfg.N_layers = 1; cfg.N_freq = 1; cfg.PER_LAYER_THICKNESS = [0.3]; cfg.target_frequencies = np.array([0.7])
cfg.TRCWA_TOP_LAYER_EPS = 4.0; cfg.TRCWA_BOTTOM_LAYER_EPS = 1.0
R, T = nidn.compute_spectrum(torch.full((1, 1, 1, 1), 4.0 + 0j, dtype=torch.cdouble), cfg)
# one interface 2 -> 1, incident power normalised by the solver
r = ((2 - 1) / 3) ** 2
assert abs(float(R[0]) / (float(R[0]) + float(T[0])) - r) < 1e-3, (R, T)
''')
bug("rcwa-layer-index-grid", "C11", [
 ("nidn/trcwa/trcwa.py", '''                ep_grid = ep_all[:, :, i - 1]
''', '''                ep_grid = ep_all[:, :, min(i - 1, 2)]
''')],
 "a patterned stack with more than three layers",
 "layers beyond the third reuse the third layer's pattern",
 '''
def run(n, cut):
    cfg = nidn.load_default_cfg(); cfg.solver = "TRCWA"; cfg.Nx = cfg.Ny = 9; cfg.N_freq = 1
    cfg.target_frequencies = np.array([0.7]); cfg.TRCWA_NG = 5
    torch.manual_seed(1)
    pats = [1 + 4 * torch.rand(9, 9) for _ in range(4)]; th = [0.1, 0.2, 0.15, 0.3]
    if cut: pats = [pats[0]] + pats; th = [0.04, 0.06] + th[1:]
    cfg.N_layers = len(pats); cfg.PER_LAYER_THICKNESS = th
    g = torch.stack(pats, 2).unsqueeze(-1).to(torch.cdouble)
    R, T = nidn.compute_spectrum(g, cfg); return float(R[0]), float(T[0])
a, b = run(4, False), run(4, True)
assert np.allclose(a, b, atol=1e-6), (a, b)
''')
bug("rcwa-recip-swapped", "C11", [
 ("nidn/trcwa/utils/kbloch.py", '''    kx = kx0 + 2 * PI * (Lk1[0] * G[:, 0] + Lk2[0] * G[:, 1])
    ky = ky0 + 2 * PI * (Lk1[1] * G[:, 0] + Lk2[1] * G[:, 1])
''', '''    lattice = torch.stack((Lk1, Lk2), dim=1).abs()
    kx = kx0 + 2 * PI * (lattice[0, 0] * G[:, 0] + lattice[0, 1] * G[:, 1])
    ky = ky0 + 2 * PI * (lattice[1, 0] * G[:, 0] + lattice[0, 0] * G[:, 1])
''')],
 "a rectangular (not square) lattice with a pattern varying in y",
 "the y reciprocal vector uses the x period",
 '''
def run(scale):
    cfg = nidn.load_default_cfg(); cfg.solver = "TRCWA"; cfg.Nx = 1; cfg.Ny = 12; cfg.N_freq = 1
    cfg.target_frequencies = np.array([0.8]); cfg.TRCWA_NG = 7
    cfg.TRCWA_L_grid = [[scale, 0.0], [0.0, 0.6]]
    cfg.N_layers = 1; cfg.PER_LAYER_THICKNESS = [0.3]
    g = torch.ones(1, 12, 1, 1, dtype=torch.cdouble); g[0, :5] = 6.0
    R, T = nidn.compute_spectrum(g, cfg); return float(R[0]), float(T[0])
a, b = run(0.1), run(0.15)   # orders in x are all uncoupled: the x period cannot matter
assert np.allclose(a, b, atol=1e-6), (a, b)
''')
CO = "nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py"
bug("coef-normalise-boundary", "C16", [
 (CO, '''    elif coefficient_sum > 1 and coefficient_sum < 1.05:
''', '''    elif coefficient_sum > 1.01 and coefficient_sum < 1.05:
''')],
 "a coefficient sum of exactly 1.01 (float32/64 equality)",
 "placeholder", "")
BUGS.pop("coef-normalise-boundary")
bug("coef-fallback-abs", "C16", [
 (CO, '''        mean_squared_reflection_material = (max(true_reflection) ** 2) / 2
''', '''        mean_squared_reflection_material = (true_reflection.abs().max() ** 2) / 2
''')],
 "a reflected signal with fewer than two peaks and a larger negative than positive excursion",
 "the fall-back uses the largest magnitude instead of the maximum",
 '''
from nidn.fdtd_integration.calculate_transmission_reflection_coefficients import calculate_transmission_reflection_coefficients as f
cfg = DotMap(FDTD_min_gridpoints_per_unit_magnitude=10)
t = torch.arange(40, dtype=torch.float64); s = torch.sin(2 * math.pi * t / 10 + 0.3)
r = torch.zeros(40, dtype=torch.float64); r[3] = -0.8; r[4] = 0.2
T, R = f([s.clone(), 0.5 * s], [s.clone(), s + r], 1e-6, cfg)
den = None
import nidn.fdtd_integration.calculate_transmission_reflection_coefficients
pk = [i for i in range(1, 39) if s[i] > s[i - 1] and s[i] > s[i + 1]]
den = float((s[pk[0]:pk[-1]] ** 2).mean())
assert abs(float(R) - (0.2 ** 2 / 2) / den) < 1e-9, float(R)
''')
bug("siren-hidden-default", "C20", [
 ("nidn/training/utils/siren.py", '''        for i in range(hidden_layers):
''', '''        for i in range(max(1, hidden_layers - (hidden_layers > 10))):
''')],
 "more than ten hidden layers (or none)",
 "the network does not have the configured number of layers",
 '''
for h in (1, 3, 11, 13):
    cfg = nidn.load_default_cfg(); cfg.hidden_layers = h; cfg.n_neurons = 5; cfg.out_features = 2; cfg.model_type = "siren"
    n = sum(p.numel() for p in nidn.training.model.init_network.init_network(cfg).parameters())
    assert n == (4 * 5 + 5) + h * 30 + (5 * 2 + 2), (h, n)
''')
bug("voxel-imag-init", "C20", [
 ("nidn/training/utils/voxel.py", '''        init_w.imag += cfg.imag_min_eps
''', '''        init_w.imag += cfg.real_min_eps
''')],
 "a voxel model with different real and imaginary minimum",
 "initial imaginary parts are outside the configured range",
 '''
cfg = nidn.load_default_cfg(); cfg.model_type = "voxel"; cfg.real_min_eps = 3.0; cfg.real_max_eps = 5.0
cfg.imag_min_eps = 0.0; cfg.imag_max_eps = 1.0; cfg.Nx = cfg.Ny = 2; cfg.N_layers = 2; cfg.N_freq = 2
w = nidn.training.model.init_network.init_network(cfg)()
assert float(w.imag.min()) >= 0 and float(w.imag.max()) <= 1 and float(w.real.min()) >= 3 and float(w.real.max()) <= 5
''')
