VAL = "nidn/utils/validate_config.py"
EPSG = "nidn/training/model/model_to_eps_grid.py"
LB = "nidn/materials/layer_builder.py"
COEF = "nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py"
TR = "nidn/trcwa/trcwa.py"
INITT = "nidn/trcwa/init_trcwa.py"
SRC = "nidn/fdtd/sources.py"
BND = "nidn/fdtd/boundaries.py"
OBJ = "nidn/fdtd/objects.py"
TF = "nidn/trcwa/compute_target_frequencies.py"

# ---------------------------------------------------------------- training
bug("train-window-25", "C02", [
 (TRAIN, "weighted_average = deque([], maxlen=20)", "weighted_average = deque([], maxlen=25)")],
 "more than 20 completed iterations",
 "the weighted-average log is the mean of up to 25 losses",
 FAKE + '''
cfg = small_cfg()
scripted(cfg, [(0.5 - 0.01 * k, 0.2) for k in range(24)])
ll, wa = cfg.results.loss_log, cfg.results.weighted_average_log
assert abs(wa[-1] - np.mean(ll[-20:])) < 1e-12, (wa[-1], np.mean(ll[-20:]))
''')
bug("train-lr-floor", "C02", [
 (TRAIN, '''            optimizer.param_groups[0]["lr"] *= 0.5
''', '''            optimizer.param_groups[0]["lr"] = max(
                optimizer.param_groups[0]["lr"] * 0.5, 1e-6
            )
''')],
 "solver failures with a learning rate below 2e-6 (a small configured one or many failures)",
 "the learning rate is not halved below 1e-6",
 FAKE + '''
cfg = small_cfg(learning_rate=1.5e-6)
opts = []
orig = torch.optim.Adam
class Spy(orig):
    def __init__(self, *a, **k):
        super().__init__(*a, **k); opts.append(self)
torch.optim.Adam = Spy
scripted(cfg, [(0.1, 0.2), None, (0.2, 0.2)])
lr = opts[-1].param_groups[0]["lr"]
assert abs(lr - 0.75e-6) < 1e-15, lr
''')
bug("train-retry-failed", "C02", [
 (TRAIN, "    for it in range(run_cfg.iterations):\n", "    it = -1\n    failures = 0\n    while len(run_cfg.results.loss_log) < run_cfg.iterations and failures < 100:\n        it += 1\n"),
 (TRAIN, '''            optimizer.param_groups[0]["lr"] *= 0.5
            continue
''', '''            optimizer.param_groups[0]["lr"] *= 0.5
            failures += 1
            continue
''')],
 "a solver failure during training",
 "failed iterations are repeated, so more than the configured number of iterations are performed",
 FAKE + '''
cfg = small_cfg()
n = [0]
def fake(eps, c, validate_cfg=True):
    n[0] += 1
    if n[0] == 2: raise ValueError("x")
    z = eps.real.mean() * 1e-3
    return [0.3 + z] * 2, [0.2 + z] * 2
RT.compute_spectrum = fake
cfg.iterations = 4
nidn.run_training(cfg)
assert n[0] == 4 and len(cfg.results.loss_log) == 3, (n, cfg.results.loss_log)
''')
bug("train-l1-uses-L", "C02", [
 (TRAIN, '''            run_cfg.target_frequencies,
            1,
            False,
''', '''            run_cfg.target_frequencies,
            run_cfg.L if run_cfg.absorption_loss else 1,
            False,
''')],
 "absorption loss with an exponent L other than 1",
 "the logged L1 error is an L-norm error",
 FAKE + '''
cfg = small_cfg(L=2.0, absorption_loss=True)
scripted(cfg, [(0.1, 0.3)])
want = (0.4 + 0.1) / 2
assert abs(cfg.results.L1_errs[0] - want) < 1e-6, cfg.results.L1_errs
''')
bug("train-tie-latest", "C01", [
 (TRAIN, "            best_loss = loss\n", "            best_loss = loss * (1 + 1e-6)\n")],
 "two physically valid iterations with exactly the same loss",
 "on ties the later model is returned",
 FAKE + '''
cfg = small_cfg()
seen = scripted(cfg, [(0.5, 0.1), (0.1, 0.2), (0.5, 0.1)])
a = cfg.results.loss_log
assert a[0] == a[2] < a[1]
assert same(seen[0], cfg.model.state_dict())
''')
bug("train-rollback-forgets-best", "C01", [
 (TRAIN, '''            run_cfg.model.load_state_dict(run_cfg.best_model_state_dict)
            logger.info(
''', '''            run_cfg.model.load_state_dict(run_cfg.best_model_state_dict)
            best_loss = np.inf
            logger.info(
''')],
 "a good iteration, then a solver failure, then only worse iterations",
 "after a roll-back the next, worse model replaces the stored best one",
 FAKE + '''
cfg = small_cfg()
seen = scripted(cfg, [(0.3, 0.2), (0.5, 0.2), None, (0.1, 0.2), (0.2, 0.2)])
assert same(seen[1], cfg.model.state_dict())
''')
bug("train-renorm-within-tolerance", "C01", [
 ("nidn/training/losses/spectrum_loss.py", "renormalized = True", "renormalized = renormalized or bool(total > 1.02)"),
 ], "an iteration whose spectrum exceeds R+T=1 by less than two percent and has the lowest loss",
 "slightly unphysical iterations are returned as the best model",
 FAKE + '''
cfg = small_cfg(target_reflectance_spectrum=[0.8, 0.8])
seen = scripted(cfg, [(0.3, 0.2), (0.808, 0.2), (0.2, 0.2)])
assert same(seen[0], cfg.model.state_dict())
''')
# ---------------------------------------------------------------- losses
bug("loss-target-absorption-clamped", "C03", [
 ("nidn/training/losses/spectrum_loss.py", "            target_A = 1 - target_T - target_R\n", "            target_A = max(1 - target_T - target_R, 0.0)\n")],
 "absorption loss with targets whose sum exceeds 1", "the target absorption is clamped at zero",
 '''
from nidn.training.losses.spectrum_loss import _spectrum_loss_fn as f
t = lambda x: torch.tensor(x)
v, _ = f([t(0.3)], [t(0.2)], [0.75], [0.5], [1.0], 1, True)
assert abs(float(v) - (0.45 + 0.3 + 0.75) / 3) < 1e-6
''')
# ---------------------------------------------------------------- configuration
bug("cfg-thickness-prefix", "C04", [
 (VAL, "        len(cfg.PER_LAYER_THICKNESS) == cfg.N_layers\n", "        len(cfg.PER_LAYER_THICKNESS) >= cfg.N_layers\n")],
 "more thicknesses than layers", "a configuration with more thicknesses than layers is accepted",
 CFG + '''
cfg = cfg_(N_layers=2, PER_LAYER_THICKNESS=[0.1, 0.2, 0.3])
from nidn.utils.validate_config import _validate_config
try: _validate_config(cfg)
except RuntimeError: sys.exit(0)
sys.exit("accepted")
''')
bug("cfg-detector-last-cell", "C04", [
 (VAL, "        < cfg.FDTD_gridpoints_from_material_to_detector\n", "        <= cfg.FDTD_gridpoints_from_material_to_detector\n")],
 "a detector distance equal to the free space in grid points",
 "a detector at the far end of the free space is rejected",
 CFG + '''
cfg = cfg_(FDTD_free_space_distance=1.0, FDTD_min_gridpoints_per_unit_magnitude=16, FDTD_gridpoints_from_material_to_detector=16)
from nidn.utils.validate_config import _validate_config
_validate_config(cfg)
''')
bug("cfg-lattice-second-vector", "C04", [
 (VAL, "    if not cfg.TRCWA_L_grid[1][0] < cfg.TRCWA_L_grid[1][1]:", "    if not cfg.TRCWA_L_grid[1][0] <= cfg.TRCWA_L_grid[1][1]:")],
 "a second lattice vector with equal components", "an unordered lattice row is accepted",
 CFG + '''
cfg = cfg_(TRCWA_L_grid=[[0.1, 0.0], [0.1, 0.1]])
from nidn.utils.validate_config import _validate_config
try: _validate_config(cfg)
except RuntimeError: sys.exit(0)
sys.exit("accepted")
''')
# ---------------------------------------------------------------- frequencies
bug("freq-float32", "C05", [
 (TF, "    target_frequencies = np.sort(target_frequencies)\n", "    target_frequencies = np.sort(target_frequencies).astype(np.float32)\n")],
 "comparing with the exact reciprocal of the wavelength", "frequencies carry only single precision",
 '''
from nidn.trcwa.compute_target_frequencies import compute_target_frequencies as f
v = f(1e-6, 3e-6, 3, "linear")
assert abs(float(v[0]) * 3 - 1) < 1e-12
''')
bug("freq-single-is-shortest", "C05", [
 (TF, '''    logval_min = np.log10(min_physical_freq)
''', '''    if N_freq < 2:
        min_physical_freq = max_physical_freq

    logval_min = np.log10(min_physical_freq)
''')],
 "N_freq = 1", "a single frequency is that of the shortest instead of the longest wavelength",
 '''
from nidn.trcwa.compute_target_frequencies import compute_target_frequencies as f
v = f(1e-6, 3e-6, 1, "log")
assert abs(float(v[0]) * 3 - 1) < 1e-9
''')
bug("freq-points-dedup", "C05", [
 ("nidn/trcwa/get_frequency_points.py", "    physical_target_frequencies = wl_to_phys_wl(freq_to_wl(run_cfg.target_frequencies))\n",
  "    physical_target_frequencies = wl_to_phys_wl(freq_to_wl(run_cfg.target_frequencies))\n    if run_cfg.freq_distribution == \"log\":\n        physical_target_frequencies = physical_target_frequencies[::-1]\n")],
 "a log distribution", "the physical wavelengths are returned in the opposite order of the frequencies",
 CFG + '''
cfg = cfg_(freq_distribution="log", N_freq=3)
wl, f = nidn.get_frequency_points(cfg)
assert np.allclose(np.array(wl) * 1e6 * np.array(f), 1)
''')
# ---------------------------------------------------------------- materials
bug("material-nearest-below", "C06", [
 (MC, '''            result_index = csv_data["Wavelength"].sub(wl).abs().idxmin()
''', '''            result_index = csv_data["Wavelength"].rdiv(1.0).sub(freq).abs().idxmin()
''')],
 "a target wavelength between two table rows where the nearest wavelength and the nearest frequency differ",
 "the row with the nearest frequency is taken instead of the nearest wavelength",
 '''
import pandas, glob
from nidn.materials.material_collection import MaterialCollection
d = os.path.dirname(nidn.__file__) + "/materials/data/"
for p in sorted(glob.glob(d + "*.csv")):
    t = pandas.read_csv(p, delimiter="\\t"); name = os.path.basename(p)[:-4]
    w = np.sort(t["Wavelength"].to_numpy())
    i = int(np.argmax(np.diff(w) / w[:-1]))
    a, b = w[i], w[i + 1]
    wl = 0.5 * (2 * a * b / (a + b) + (a + b) / 2)   # between harmonic and arithmetic mean
    row = t.iloc[(t["Wavelength"] - wl).abs().idxmin()]
    got = MaterialCollection([1 / wl])[name].reshape(-1)[0]
    assert abs(complex(got) - complex(row.n, row.k) ** 2) < 1e-4 * (1 + abs(complex(row.n, row.k) ** 2)), name
''')
bug("closest-material-real-part", "C06", [
 ("nidn/materials/find_closest_material.py", '''        comparisons[..., idx] = torch.abs(eps - material_eps)
''', '''        difference = eps - material_eps
        comparisons[..., idx] = difference.real.abs() + difference.imag.abs()
''')],
 "a permittivity whose nearest material differs between the complex modulus and the sum of the parts",
 "distances are taken in the 1-norm of real and imaginary part",
 CFG + '''
from nidn.materials.material_collection import MaterialCollection
from nidn.materials.find_closest_material import _find_closest_material
cfg = cfg_(N_freq=1)
mc = MaterialCollection(cfg.target_frequencies)
eps = torch.full((1, 1, 1, 1), 7.0 + 5.0j, dtype=torch.cdouble)
d, i = _find_closest_material(eps, cfg, mc)
ref = (eps.reshape(-1)[0] - mc.epsilon_matrix[:, 0]).abs()
assert abs(float(d.reshape(-1)[0]) - float(ref.min())) < 1e-4 * float(ref.min())
''')
bug("material-getitem-case", "C06", [
 (MC, '''        if key in self.material_names:
            return''', '''        if key not in self.material_names and key.lower() in [
            name.lower() for name in self.material_names
        ]:
            key = [n for n in self.material_names if n.lower() == key.lower()][0]
        if key in self.material_names:
            return''')],
 "looking up a name with different capitalisation", "a name that is not listed does not raise KeyError",
 '''
from nidn.materials.material_collection import MaterialCollection
mc = MaterialCollection([0.5, 1.0])
n = mc.material_names[0]
try: mc[n.swapcase()]
except KeyError: sys.exit(0)
sys.exit("no KeyError")
''')
# ---------------------------------------------------------------- layers
bug("layer-circle-centre-swap", "C07", [
 (LB, "        ind = (grid_x - x_center) ** 2 + (grid_y - y_center) ** 2 < radius**2\n",
  "        ind = torch.hypot(grid_x - x_center, grid_y - y_center) <= radius\n")],
 "a cell exactly on the circle", "cells exactly on the circle belong to it",
 CFG + '''
from nidn.materials.layer_builder import LayerBuilder
cfg = cfg_(Nx=5, Ny=5)
b = LayerBuilder(cfg)
e = b.build_circle_layer("gold", "silicon_oxide", radius=0.5) if "gold" in b.material_collection.material_names else None
names = b.material_collection.material_names
e = b.build_circle_layer(names[0], names[1], radius=0.5)
assert torch.equal(e[0, 2], b.material_collection[names[0]])
''')
bug("layer-square-large-a", "C07", [
 (LB, "        # Define the square\n", "        # Define the square, a is at most half the layer\n        a = min(a, 1 - a)\n")],
 "a square size above one half", "a > 1/2 gives the square of 1-a instead of none",
 CFG + '''
from nidn.materials.layer_builder import LayerBuilder
cfg = cfg_(Nx=5, Ny=5)
b = LayerBuilder(cfg)
names = b.material_collection.material_names
e = b.build_squared_layer(names[0], names[1], a=0.7)
assert torch.equal(e, b.build_uniform_layer(names[0]))
''')
# ---------------------------------------------------------------- eps grids
bug("eps-voxel-clip-parts", "C08", [
 (EPSG, '''        eps.imag = out.imag.clip(run_cfg.imag_min_eps, run_cfg.imag_max_eps)
''', '''        eps.imag = out.imag.clip(min=run_cfg.imag_min_eps)
''')],
 "a voxel weight whose imaginary part exceeds the maximum", "imaginary parts above the maximum are not clipped",
 CFG + '''
cfg = cfg_(model_type="voxel", type="regression")
cfg.out_features = 2
from nidn.training.model.init_network import init_network
from nidn.training.model.model_to_eps_grid import model_to_eps_grid
m = init_network(cfg); m.weights.data.imag += 50
e, _ = model_to_eps_grid(m, cfg)
assert float(e.imag.detach().max()) <= cfg.imag_max_eps + 1e-6
''')
bug("eps-avoid-zero-sign", "C08", [
 (EPSG, "    indices = torch.logical_and(eps.real < cutoff, eps.real > -cutoff)\n    eps.real[indices] = cutoff * torch.sign(eps.real[indices])\n",
  "    indices = torch.logical_and(eps.real < cutoff, eps.real > 0)\n    eps.real[indices] = cutoff\n")],
 "a real permittivity slightly below zero", "values in (-0.01, 0) are left unchanged",
 '''
from nidn.training.model.model_to_eps_grid import _avoid_zero_eps
e = torch.tensor([-0.004 + 0.5j, 0.004 + 0j, 0j])
e = _avoid_zero_eps(e)
assert float(e.real.abs().min()) >= 0.0099
''')
bug("eps-thickness-z", "C08", [
 (EPSG, "        z = z / z.max() - 0.5\n", "        z = (z / z.max()).round(decimals=1) - 0.5\n")],
 "per-layer thicknesses with a layer much thinner than the stack",
 "two layers are evaluated at the same network input, so they are no longer independent",
 CFG + '''
cfg = cfg_(N_layers=4, PER_LAYER_THICKNESS=[1.0, 0.01, 0.01, 1.0], type="regression", model_type="siren", N_freq=1)
cfg.out_features = 2
from nidn.training.model.model_to_eps_grid import model_to_eps_grid
seen = []
def m(x): seen.append(x); return torch.zeros(len(x), 2) + 0.5
model_to_eps_grid(m, cfg)
z = sorted(set(seen[0][:, 2].tolist()))
assert len(z) == 4, z
''')
bug("class-softmax-max", "C09", [
 (EPSG, "    exponential = torch.exp(beta * out)\n", "    exponential = torch.exp((beta * out).clip(max=12.0))\n")],
 "averaged likelihoods above 0.75", "materials with likelihoods above 0.75 become equally likely",
 CFG + '''
cfg = cfg_(type="classification")
from nidn.materials.material_collection import MaterialCollection
from nidn.training.model.model_to_eps_grid import model_to_eps_grid
cfg.material_collection = MaterialCollection(cfg.target_frequencies); cfg.N_materials = cfg.material_collection.N_materials
def m(x):
    o = torch.zeros(len(x), cfg.N_materials); o[:, 0] = 0.8; o[:, 1] = 0.9; return o
_, p = model_to_eps_grid(m, cfg)
assert float(p[..., 1].reshape(-1)[0]) > 3 * float(p[..., 0].reshape(-1)[0])
''')
bug("class-avoid-zero-materials", "C09", [
 (EPSG, """        -2
    )

    if run_cfg.avoid_zero_eps:
        _avoid_zero_eps(eps)

    return eps, material_id
""", """        -2
    )

    return eps, material_id
"""),
 (EPSG, """    # Convert material probabilities to epsilons
""", """    # Materials with vanishing permittivity are singular in the solvers
    if run_cfg.avoid_zero_eps:
        _avoid_zero_eps(run_cfg.material_collection.epsilon_matrix)

    # Convert material probabilities to epsilons
""")],
 "a mixture of a metal and a dielectric whose permittivity nearly vanishes", "mixtures closer to zero than 0.01 are returned",
 CFG + '''
cfg = cfg_(type="classification")
from nidn.training.model.model_to_eps_grid import model_to_eps_grid
cfg.material_collection = DotMap(); cfg.N_materials = 2
cfg.material_collection.epsilon_matrix = torch.tensor([[2.0 + 0.1j, 2.0 + 0.1j], [-2.0 + 0.1j, 3.0 + 0.1j]])
def m(x): return torch.full((len(x), 2), 0.5)
e, p = model_to_eps_grid(m, cfg)
assert float(e.real.abs().min()) >= 0.0099
''')

# ---------------------------------------------------------------- RCWA
bug("rcwa-thickness-uniform-skip", "C10", [
 (INITT, "            trcwa.Add_LayerUniform(thickness, eps_grid[layer])\n", """            # Merge layers of the same material
            if layer > 0 and torch.equal(eps_grid[layer], eps_grid[layer - 1]):
                trcwa.thickness_list[-1] += run_cfg.PER_LAYER_THICKNESS[0]
                continue
            trcwa.Add_LayerUniform(thickness, eps_grid[layer])
""")],
 "neighbouring layers of the same material with different thicknesses",
 "the merged layer gets the first layer's thickness added instead of its own",
 CFG + '''
eps = torch.full((1, 1, 2, 2), 4.0 + 0j, dtype=torch.cdouble)
a = nidn.compute_spectrum(eps, cfg_(N_layers=2, PER_LAYER_THICKNESS=[0.3, 0.7]))
b = nidn.compute_spectrum(eps[:, :, :1], cfg_(N_layers=1, PER_LAYER_THICKNESS=[1.0]))
assert abs(float(a[0][0]) - float(b[0][0])) < 1e-6 and abs(float(a[1][1]) - float(b[1][1])) < 1e-6
''')
bug("rcwa-bottom-eps-from-top", "C10", [
 (INITT, """        thickness=1.0, epsilon=torch.tensor(run_cfg.TRCWA_BOTTOM_LAYER_EPS)
""", """        thickness=1.0,
        epsilon=torch.tensor(
            run_cfg.TRCWA_BOTTOM_LAYER_EPS
            if run_cfg.TRCWA_BOTTOM_LAYER_EPS >= 1.0
            else run_cfg.TRCWA_TOP_LAYER_EPS
        ),
""")],
 "a bottom half space with a permittivity below one", "the bottom half space gets the top's permittivity",
 CFG + '''
cfg = cfg_(TRCWA_BOTTOM_LAYER_EPS=0.25)
r, t = nidn.compute_spectrum(torch.full((1, 1, 1, 2), 1.0 + 0j, dtype=torch.cdouble), cfg)
assert abs(float(r[0]) - 1 / 9) < 1e-3, r
''')
# ---------------------------------------------------------------- FDTD
bug("fdtd-object-last-cell", "C14", [
 (OBJ, """            if stop < 0:
                stop = max_index + stop
""", """            if stop < 0:
                stop = max_index + stop
            stop = min(stop, max_index - 1) if start > 0 else stop
""")],
 "an object that reaches the upper edge of the grid but not the lower one", "the last cell of the object stays free space",
 '''
from nidn.fdtd import Grid, AbsorbingObject, set_backend
set_backend("torch")
g = Grid((6, 1, 1), grid_spacing=1e-7)
g[3:6, :, :] = AbsorbingObject(permittivity=4.0, conductivity=0.0)
assert float(g.inverse_permittivity[5, 0, 0, 2]) == 0.25
''')
bug("periodic-z-h", "C14", [
 (BND, "        self.grid.H[:, :, -1, :] = self.grid.H[:, :, 0, :]\n", "        self.grid.H[:, :, -1, ::2] = self.grid.H[:, :, 0, ::2]\n")],
 "a grid with periodic boundaries in z and a y component of H", "the y component of H is not wrapped",
 '''
from nidn.fdtd import Grid, PeriodicBoundary, set_backend
set_backend("torch")
g = Grid((3, 3, 4), grid_spacing=1e-7)
g[:, :, 0] = PeriodicBoundary(name="zb")
torch.manual_seed(0); g.E = torch.rand(g.E.shape)
g.step()
assert torch.equal(g.H[:, :, -1], g.H[:, :, 0])
''')
bug("line-source-offset-profile", "C14", [
 (SRC, "            vect = self.profile * sin(2 * pi * q / self.period + self.phase_shift)\n", "            vect = self.profile * sin(2 * pi * (q % self.period) / self.period + self.phase_shift * (q < self.period))\n")],
 "a line source with a phase shift, after the first period", "the phase shift is lost after one period",
 '''
from nidn.fdtd import Grid, LineSource, PeriodicBoundary, set_backend
set_backend("torch")
def run(ph, n):
    g = Grid((9, 3, 1), grid_spacing=1e-7)
    g[4, :, 0] = LineSource(period=8 * g.time_step, phase_shift=ph, name="s")
    out = []
    for k in range(n):
        e = g.E.clone(); h = g.H.clone(); g.H *= 0; g.E *= 0
        g.step(); out.append(float(g.E[4, 1, 0, 2])); 
    return np.array(out)
a = run(0.7, 16)
p = np.sin(2 * np.pi * np.arange(16) / 8 + 0.7)
assert np.allclose(a / np.abs(a).max(), p / np.abs(p).max(), atol=1e-6), (a, p)
''')
bug("scene-detector-half", "C15", [
 (INIT, "    detector_y -= cfg.FDTD_gridpoints_from_material_to_detector\n", "    detector_y -= min(\n        cfg.FDTD_gridpoints_from_material_to_detector,\n        int(cfg.FDTD_free_space_distance * cfg.FDTD_grid_scaling / 2),\n    )\n")],
 "a detector distance of more than half the free space", "the reflection detector stays within half the free space",
 CFG + '''
from nidn.fdtd_integration.init_fdtd import init_fdtd
cfg = fcfg(FDTD_gridpoints_from_material_to_detector=12, FDTD_min_gridpoints_per_unit_magnitude=16)
cfg.FDTD_grid_scaling = torch.tensor(16.0)
g, t, r = init_fdtd(cfg, False, 1e-6, None)
assert r.x[0] == 32 - 12, r.x
''')
bug("coef-clamps-unphysical", "C16", [
 (COEF, """    return transmission_coefficient, reflection_coefficient


def _mean_square""", """        if coefficient_sum > 2:
            transmission_coefficient = transmission_coefficient / coefficient_sum
            reflection_coefficient = reflection_coefficient / coefficient_sum
    return transmission_coefficient, reflection_coefficient


def _mean_square""")],
 "coefficients that add up to more than 2", "far too large coefficients are divided by their sum instead of being returned unchanged",
 CFG + '''
from nidn.fdtd_integration.calculate_transmission_reflection_coefficients import calculate_transmission_reflection_coefficients as f
cfg = fcfg(FDTD_min_gridpoints_per_unit_magnitude=10)
s = torch.sin(torch.arange(400.) / 3)
t, r = f([s.clone(), 2 * s], [s.clone(), 3 * s], 1e-6, cfg)
assert abs(float(t) - 4) < 0.2 and abs(float(r) - 4) < 0.2, (t, r)
''')
# ---------------------------------------------------------------- gradients, files, networks
bug("rcwa-grad-detached-r", "C18", [
 ("nidn/trcwa/compute_spectrum_trcwa.py", "        produced_R_spectrum.append(reflectance)\n", "        produced_R_spectrum.append(\n            reflectance if reflectance < 0.999 else reflectance.detach().clamp(max=1.0)\n        )\n")],
 "a structure that reflects almost everything", "nearly perfect mirrors receive no gradient from R",
 CFG + '''
cfg = cfg_(PER_LAYER_THICKNESS=[3.0])
e = torch.full((1, 1, 1, 2), -20.0 + 0.001j, dtype=torch.cdouble, requires_grad=True)
r, t = nidn.compute_spectrum(e, cfg)
r[1].backward()
assert e.grad is not None and float(e.grad.abs().sum()) > 0
''')
bug("nerf-skip-last", "C20", [
 ("nidn/training/utils/nerf.py", "                self.net.append(NERFLayer(n_neurons + in_features, n_neurons))\n", "                self.net.append(NERFLayer(n_neurons + in_features, n_neurons, bias=hidden_layers < 12))\n"),
 ("nidn/training/utils/nerf.py", "        nn.init.uniform_(self.linear.bias.data, -0.0, 0.0)\n", "        if self.linear.bias is not None:\n            nn.init.uniform_(self.linear.bias.data, -0.0, 0.0)\n")],
 "12 or more hidden layers", "deep networks lack the bias of one layer",
 CFG + '''
from nidn.training.model.init_network import init_network
cfg = cfg_(model_type="nerf", hidden_layers=12, n_neurons=5); cfg.out_features = 2
m = init_network(cfg)
n = sum(p.numel() for p in m.parameters())
assert n == 4*5+5 + 11*(25+5) + (9*5+5) + 5*2+2, n
''')
bug("siren-batch-normalised", "C20", [
 ("nidn/training/utils/siren.py", "        output = self.net(coords)\n        return output\n", "        # Keep the inputs of very wide domains in a sensible range\n        if coords.abs().max() > 2000:\n            coords = coords / coords.abs().max() * 2000\n        output = self.net(coords)\n        return output\n")],
 "a batch containing a point with a coordinate above 2000", "a row depends on the other points of the batch",
 CFG + '''
from nidn.training.model.init_network import init_network
cfg = cfg_(model_type="siren"); cfg.out_features = 2
m = init_network(cfg)
a = torch.tensor([[0.5, -0.5, 30.0, 2.0]]); b = torch.cat([a, torch.tensor([[0., 0., 5000., 0.]])])
assert torch.allclose(m(a)[0], m(b)[0], atol=1e-6)
''')
