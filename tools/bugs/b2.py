RCWA = "nidn/trcwa/compute_spectrum_trcwa.py"
FD = "nidn/fdtd_integration/compute_spectrum_fdtd.py"
INIT = "nidn/fdtd_integration/init_fdtd.py"
GRID = "nidn/fdtd/grid.py"
CFG = '''
def cfg_(**kw):
    cfg = nidn.load_default_cfg()
    cfg.N_freq = 2; cfg.Nx = cfg.Ny = 1; cfg.N_layers = 1; cfg.eps_oversampling = 1
    cfg.hidden_layers = 1; cfg.n_neurons = 4
    cfg.PER_LAYER_THICKNESS = [0.3]; cfg.solver = "TRCWA"
    cfg.target_reflectance_spectrum = [0.5, 0.5]; cfg.target_transmittance_spectrum = [0.2, 0.2]
    for k, v in kw.items(): cfg[k] = v
    nidn.get_frequency_points(cfg)
    return cfg
def fcfg(**kw):
    d = dict(solver="FDTD", physical_wavelength_range=[8e-7, 1.2e-6], FDTD_niter=600, FDTD_min_gridpoints_per_unit_magnitude=20,
             FDTD_pml_thickness=1.0, FDTD_free_space_distance=1.0, FDTD_source_position=[1.5, 1.0],
             FDTD_gridpoints_from_material_to_detector=2)
    d.update(kw)
    return cfg_(**d)
'''
bug("rcwa-nan-real-only", "C12", [
 (RCWA, "if torch.any(torch.isnan(eps_grid)):", "if torch.any(torch.isnan(eps_grid.real)):")],
 "a permittivity whose imaginary part alone is NaN",
 "RCWA no longer raises ValueError for NaN in the imaginary part",
 CFG + '''
cfg = cfg_()
eps = torch.full((1, 1, 1, 2), 2.0 + 0.1j, dtype=torch.cdouble)
eps.imag[0, 0, 0, 1] = float("nan")
try:
    nidn.compute_spectrum(eps, cfg)
except ValueError:
    sys.exit(0)
sys.exit("NaN accepted")
''')
bug("rcwa-reuse-equal-slice", "C12", [
 (RCWA, '''        # Create TRCWA Object for this frequency
''', '''        # Neighbouring frequencies with the same transparent layers need no new simulation
        if idx > 0 and torch.equal(eps_grid[..., idx], eps_grid[..., idx - 1]):
            if torch.all(eps_grid[..., idx].imag < 0):
                produced_R_spectrum.append(produced_R_spectrum[-1])
                produced_T_spectrum.append(produced_T_spectrum[-1])
                continue

        # Create TRCWA Object for this frequency
''')],
 "two neighbouring frequencies with identical permittivities with gain",
 "the entry of the second frequency is that of the first",
 CFG + '''
cfg = cfg_()
a = torch.full((1, 1, 1, 2), 2.0 - 0.1j, dtype=torch.cdouble)
b = a.clone(); b[..., 0] = 3.0
ra, _ = nidn.compute_spectrum(a, cfg)
rb, _ = nidn.compute_spectrum(b, cfg)
assert abs(float(ra[1]) - float(rb[1])) < 1e-9
''')
bug("rcwa-clamps-input", "C12", [
 (RCWA, '''    logger.debug("Iterating over passed frequencies")
''', '''    # Permittivities of exactly zero are singular
    eps_grid.data[eps_grid.data == 0] = 1e-6

    logger.debug("Iterating over passed frequencies")
''')],
 "a permittivity grid containing an exact zero",
 "the permittivity grid passed in is modified",
 CFG + '''
cfg = cfg_(N_layers=2)
eps = torch.full((1, 1, 2, 2), 2.0 + 0j, dtype=torch.cdouble); eps[0, 0, 0, 1] = 0
keep = eps.clone()
try:
    nidn.compute_spectrum(eps, cfg)
except Exception:
    pass
assert torch.equal(eps, keep)
''')
bug("seed-only-once", "C13", [
 ("nidn/utils/fix_random_seeds.py", "    torch.manual_seed(seed)\n", "    if torch.initial_seed() != seed:\n        torch.manual_seed(seed)\n")],
 "a second training with the same seed in one process",
 "the second training starts from other random numbers although the settings are the same",
 CFG + '''
def start():
    cfg = cfg_(iterations=1, seed=7)
    nidn.run_training(cfg)
    return torch.cat([p.detach().flatten() for p in cfg.model.parameters()])
assert torch.equal(start(), start())
''')
bug("freq-stale", "C13", [
 ("nidn/trcwa/get_frequency_points.py", '''    # Determine target frequencies
    run_cfg.target_frequencies = compute_target_frequencies(
        run_cfg.physical_wavelength_range[0],
        run_cfg.physical_wavelength_range[1],
        run_cfg.N_freq,
        run_cfg.freq_distribution,
    )
''', '''    # Determine target frequencies unless this was already done
    if "target_frequencies" not in run_cfg or len(run_cfg.target_frequencies) != (
        run_cfg.N_freq
    ):
        run_cfg.target_frequencies = compute_target_frequencies(
            run_cfg.physical_wavelength_range[0],
            run_cfg.physical_wavelength_range[1],
            run_cfg.N_freq,
            run_cfg.freq_distribution,
        )
''')],
 "changing the wavelength range or distribution of a configuration whose frequencies were queried before",
 "the frequencies of the old settings are returned",
 CFG + '''
cfg = cfg_(N_freq=3)
cfg.physical_wavelength_range = [2e-7, 3e-7]
a, _ = nidn.get_frequency_points(cfg)
assert abs(float(a[0]) - 3e-7) < 1e-12
''')
bug("curl-e-z-derivative", "C14", [
 (GRID, "    curl[:, :, :-1, 1] += E[:, :, 1:, 0] - E[:, :, :-1, 0]\n", "    curl[:, :, :-1, 1] -= E[:, :, 1:, 0] - E[:, :, :-1, 0]\n")],
 "a three-dimensional grid with a varying E_x",
 "the y component of curl E has the wrong sign for the z derivative of E_x",
 '''
from nidn.fdtd.grid import curl_E
E = torch.rand(3, 3, 3, 3)
c = curl_E(E)
want = (E[0, 0, 1, 0] - E[0, 0, 0, 0]) - (E[1, 0, 0, 2] - E[0, 0, 0, 2])
assert abs(float(c[0, 0, 0, 1] - want)) < 1e-6
''')
bug("detector-h-view", "C14", [
 ("nidn/fdtd/detectors.py", '''        H = self.grid.H[self.x, self.y, self.z]
        self.H.append(H)

    def __repr__(self):
        return f"{self.__class__.__name__}(name={repr(self.name)})"

    def __str__(self):
        s = "    " + repr(self) + "\\n"
        x = f"[{self.x[0]}, ... , {self.x[-1]}]"
        y = f"[{self.y[0]}, ... , {self.y[-1]}]"
        z = f"[{self.z[0]}, ... , {self.z[-1]}]"
        s += f"        @ x={x}, y={y}, z={z}\\n"
        return s

    def detector_values(self):
        """outputs what detector detects"""
        return {"E": self.E, "H": self.H}


# is the "detector"''', '''        if self.x[0] == self.x[-1] and self.z[0] == self.z[-1]:
            # Lines along y need no (slow) indexing with lists
            H = self.grid.H[self.x[0], self.y[0] : self.y[-1] + 1, self.z[0]]
        else:
            H = self.grid.H[self.x, self.y, self.z]
        self.H.append(H)

    def __repr__(self):
        return f"{self.__class__.__name__}(name={repr(self.name)})"

    def __str__(self):
        s = "    " + repr(self) + "\\n"
        x = f"[{self.x[0]}, ... , {self.x[-1]}]"
        y = f"[{self.y[0]}, ... , {self.y[-1]}]"
        z = f"[{self.z[0]}, ... , {self.z[-1]}]"
        s += f"        @ x={x}, y={y}, z={z}\\n"
        return s

    def detector_values(self):
        """outputs what detector detects"""
        return {"E": self.E, "H": self.H}


# is the "detector"''')],
 "reading the H samples of a line detector along y after more than one step",
 "the recorded H samples are views of the grid's field: all samples show the last step",
 '''
from nidn import fdtd
fdtd.set_backend("torch")
g = fdtd.Grid((12, 3, 1))
g[:, 0, :] = fdtd.PeriodicBoundary(name="yb")
g[3, :, 0] = fdtd.LineSource(period=10, name="s")
d = fdtd.LineDetector(name="d"); g[5, :, 0] = d
rec = []
for _ in range(8):
    g.step(); rec.append(g.H[5, :, 0].clone())
assert all(torch.equal(a, b) for a, b in zip(d.H, rec))
''')
bug("courant-timestep", "C14", [
 (GRID, "        self.time_step = self.courant_number * self.grid_spacing / SPEED_OF_LIGHT\n", "        self.time_step = 0.99 * max_courant_number * self.grid_spacing / SPEED_OF_LIGHT\n")],
 "a grid with an explicit Courant number",
 "the time step does not follow the given Courant number",
 '''
from nidn import fdtd
fdtd.set_backend("torch")
g = fdtd.Grid((12, 3, 1), grid_spacing=1e-7, courant_number=0.3)
assert abs(g.time_step / (0.3 * 1e-7 / 299792458.0) - 1) < 1e-6
''')
bug("reset-keeps-h", "C14", [
 (GRID, '''        self.H *= 0.0
        self.E *= 0.0
        self.time_steps_passed *= 0
''', '''        self.E *= 0.0
        if self.time_steps_passed > 0 and not self.objects:
            self.H *= 0.0
        self.time_steps_passed *= 0
''')],
 "resetting a grid that contains an object",
 "the magnetic field survives the reset",
 '''
from nidn import fdtd
fdtd.set_backend("torch")
g = fdtd.Grid((12, 3, 1))
g[:, 0, :] = fdtd.PeriodicBoundary(name="yb")
g[3, :, 0] = fdtd.LineSource(period=10, name="s")
g[5:8, :, :] = fdtd.AbsorbingObject(permittivity=2.0, conductivity=0.0)
g.run(6, progress_bar=False); g.reset()
assert float(g.H.abs().max()) == 0 and float(g.E.abs().max()) == 0 and g.time_steps_passed == 0
''')
bug("source-phase-pointsource", "C14", [
 ("nidn/fdtd/sources.py", '''            src = self.amplitude * sin(2 * pi * q / self.period + self.phase_shift)
        self.grid.E[self.x, self.y, self.z, 2] += src
''', '''            src = self.amplitude * sin(2 * pi * (q % self.period + self.phase_shift) / self.period)
        self.grid.E[self.x, self.y, self.z, 2] += src
''')],
 "a point source with a phase shift",
 "the phase shift is taken in time steps instead of radians",
 '''
from nidn import fdtd
fdtd.set_backend("torch")
g = fdtd.Grid((12, 3, 1))
g[3, 1, 0] = fdtd.PointSource(period=10, name="s", phase_shift=1.0)
g.step()
assert abs(float(g.E[3, 1, 0, 2]) - math.sin(1.0)) < 1e-6
''')
bug("scene-shared-thickness-total", "C15", [
 (FD, '''        cfg.PER_LAYER_THICKNESS = cfg.PER_LAYER_THICKNESS * cfg.N_layers
''', '''        cfg.PER_LAYER_THICKNESS = [
            round(cfg.PER_LAYER_THICKNESS[0], 1) for _ in range(cfg.N_layers)
        ]
''')],
 "several layers sharing one thickness that is not a multiple of 0.1",
 "the layers of the simulated scene have a rounded thickness",
 CFG + '''
M = sys.modules["nidn.fdtd_integration.compute_spectrum_fdtd"]
import nidn.fdtd_integration.compute_spectrum_fdtd
M = sys.modules["nidn.fdtd_integration.compute_spectrum_fdtd"]
runs = []
old = M.init_fdtd
def spy(cfg, include_object, wavelength, permittivity):
    g, t, r = old(cfg, include_object, wavelength, permittivity)
    runs.append(g)
    return g, t, r
M.init_fdtd = spy
cfg = fcfg(N_layers=2, PER_LAYER_THICKNESS=[0.25], FDTD_niter=300)
nidn.compute_spectrum(torch.full((1, 1, 2, 2), 2.0 + 0j, dtype=torch.cdouble), cfg)
assert [int(o.x.stop) - int(o.x.start) for o in runs[1].objects] == [5, 5]
''')
bug("uniform-kp-detached", "C18", [
 ("nidn/trcwa/trcwa.py", '''                q, phi = SolveLayerEigensystem_uniform(self.omega, self.kx, self.ky, ep)
''', '''                q, phi = SolveLayerEigensystem_uniform(
                    self.omega, self.kx, self.ky, ep.real.detach() + 1j * ep.imag if ep.real < 0 and ep.imag != 0 else ep
                )
''')],
 "a uniform layer with negative real permittivity and loss",
 "no gradient with respect to the real part reaches metallic layers",
 CFG + '''
cfg = cfg_()
re = torch.full((1, 1, 1, 2), -3.0, dtype=torch.double, requires_grad=True)
eps = re + 0.2j
r, t = nidn.compute_spectrum(eps, cfg)
r[0].sum().backward()
assert re.grad is not None and float(re.grad[0, 0, 0, 0].abs()) > 1e-6
''')
bug("fdtd-absorption-detached", "C18", [
 ("nidn/fdtd/objects.py", '''            * self.inverse_permittivity
            * self.conductivity
            * self.grid.grid_spacing
''', '''            * self.inverse_permittivity.detach()
            * self.conductivity
            * self.grid.grid_spacing
''')],
 "an absorbing layer in FDTD",
 "the gradient with respect to the real part misses the dependence of the absorption factor",
 CFG + '''
def loss(x, grad=False):
    cfg = fcfg(N_freq=1, FDTD_niter=500)
    re = torch.full((1, 1, 1, 1), x, dtype=torch.double, requires_grad=True)
    r, t = nidn.compute_spectrum(re + 1.0j, cfg)
    if grad:
        t[0].backward(); return float(re.grad)
    return float(t[0])
g = loss(3.0, True); d = (loss(3.05) - loss(2.95)) / 0.1
assert abs(g - d) < 0.02 * abs(d) + 1e-4, (g, d)
''')
bug("train-clip-grad", "C18", [
 (TRAIN, '''        # Update model parameters
''', '''        # Avoid exploding steps
        torch.nn.utils.clip_grad_norm_(run_cfg.model.parameters(), 1.0)

        # Update model parameters
''')],
 "an iteration whose gradient norm exceeds one",
 "the optimiser sees a shortened gradient instead of the gradient of the loss",
 FAKE + '''
cfg = small_cfg(type="classification", use_regularization_loss=True, reg_loss_weight=1e4, iterations=1)
seen = []
old = torch.optim.Adam.step
def step(self, *a, **k):
    seen.append(math.sqrt(sum(float((p.grad ** 2).sum()) for g in self.param_groups for p in g["params"] if p.grad is not None)))
    return old(self, *a, **k)
torch.optim.Adam.step = step
scripted(cfg, [(0.3, 0.2)])
assert seen[0] > 1.01, seen
''')
bug("load-best-state", "C19", [
 ("nidn/training/load_run.py", '''        run = pk.load(f)
''', '''        run = pk.load(f)
    # Use the best model found in the run
    if "best_model_state_dict" in run and "model" in run:
        run.model.load_state_dict(run.best_model_state_dict)
''')],
 "a saved run whose model differs from its best state (changed after training)",
 "the loaded model does not have the parameters it was saved with",
 CFG + '''
os.chdir(os.environ["SCRATCH"]); os.makedirs("work"); os.chdir("work")
cfg = cfg_(iterations=1)
nidn.run_training(cfg)
with torch.no_grad():
    for p in cfg.model.parameters(): p.add_(0.5)
nidn.save_run(cfg)
f = os.listdir("../results")[0]
run = nidn.load_run("../results/" + f)
assert all(torch.equal(a, b) for a, b in zip(run.model.parameters(), cfg.model.parameters()))
''')
bug("save-drops-materials", "C19", [
 ("nidn/training/save_run.py", '''    with open(filename, "wb") as handle:
''', '''    # The material data is large and can be restored from the database
    if "material_collection" in run_cfg:
        run_cfg.pop("material_collection")
    with open(filename, "wb") as handle:
''')],
 "saving a classification run",
 "saving removes the material collection from the run",
 CFG + '''
os.chdir(os.environ["SCRATCH"]); os.makedirs("work"); os.chdir("work")
cfg = cfg_(iterations=1, type="classification")
nidn.run_training(cfg)
nidn.save_run(cfg)
assert "material_collection" in cfg
''')
bug("plot-grid-disables-noise", "C19", [
 ("nidn/plots/plot_model_grid.py", '''    eps, _ = model_to_eps_grid(run_cfg.model, run_cfg)
''', '''    # Show the model itself
    run_cfg.add_noise = False
    eps, _ = model_to_eps_grid(run_cfg.model, run_cfg)
''')],
 "plotting a run trained with noise",
 "plotting changes the run's settings",
 CFG + '''
cfg = cfg_(iterations=1, add_noise=True, noise_scale=0.01, N_layers=1)
nidn.run_training(cfg)
nidn.plot_model_grid(cfg, save_path=os.environ["SCRATCH"])
assert cfg.add_noise is True
''')
