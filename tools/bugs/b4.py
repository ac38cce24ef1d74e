KB = "nidn/trcwa/utils/kbloch.py"
PL = "nidn/plots/"
PLOT = '''
import matplotlib; matplotlib.use("Agg")
from matplotlib import pyplot as plt
plt.show = lambda *a, **k: None
def grid_eps(nx, ny, nl, nf):
    g = torch.Generator().manual_seed(5)
    r = lambda: torch.rand(nx, ny, nl, nf, generator=g, dtype=torch.float64)
    return torch.complex(1 + 5 * r(), 3 * r())
class Vox(torch.nn.Module):
    def __init__(self, eps):
        super().__init__(); self.weights = torch.nn.Parameter(eps)
    def forward(self): return self.weights
def plot_cfg(nx, ny, nl, nf):
    cfg = nidn.load_default_cfg()
    cfg.update(dict(Nx=nx, Ny=ny, N_layers=nl, N_freq=nf, eps_oversampling=1, type="regression", model_type="voxel", TRCWA_NG=1,
        real_min_eps=0.5, real_max_eps=7.0, imag_min_eps=-1.0, imag_max_eps=4.0, avoid_zero_eps=False, add_noise=False, PER_LAYER_THICKNESS=[0.3],
        target_reflectance_spectrum=[0.5] * nf, target_transmittance_spectrum=[0.2] * nf))
    nidn.get_frequency_points(cfg)
    cfg.model = Vox(grid_eps(nx, ny, nl, nf))
    return cfg, cfg.model.weights.detach()
def scatter(ax):
    c = ax.collections[0]
    xs, ys, zs = [np.asarray(v, dtype=float).ravel() for v in c._offsets3d]
    return {(round(x, 4), round(y, 4), round(z, 4)): v for x, y, z, v in zip(xs, ys, zs, np.asarray(c.get_array(), dtype=float).ravel())}
def at(i, n): return round(-1 + 2 * i / (n - 1), 4) if n > 1 else -1.0
'''
bug("plot-spectra-l1-cancels", "C21", [
 (PL + "plot_spectra.py", "L1_err = abs(target_spectrum - produced_spectrum).mean()", "L1_err = abs(target_spectrum.mean() - produced_spectrum.mean())")],
 "produced spectra lying partly above and partly below the target",
 "deviations of opposite sign cancel in the L1 error shown with the spectra",
 PLOT + '''
cfg, eps = plot_cfg(1, 1, 1, 2)
nidn.plot_spectra(cfg, prod_R_spectrum=torch.tensor([0.3, 0.7]), prod_T_spectrum=torch.tensor([0.1, 0.3]))
txt = [t.get_text() for a in plt.gcf().axes for t in a.texts]
assert any("0.2000" in t for t in txt) and any("0.1000" in t for t in txt), txt
''')
bug("plot-grid-xy", "C21", [
 (PL + "plot_model_grid.py", '''    X, Y, Z = torch.meshgrid((x, y, z))
''', '''    Y, X, Z = torch.meshgrid((y, x, z))
''')],
 "a model grid with several cells in x and y",
 "plot_model_grid draws values at transposed places",
 PLOT + '''
cfg, eps = plot_cfg(3, 2, 2, 2)
nidn.plot_model_grid(cfg)
s = scatter(plt.gcf().axes[0])
want = eps.mean(dim=3).abs()
for x in range(3):
    for y in range(2):
        for l in range(2):
            assert abs(s[at(x, 3), at(y, 2), at(l, 2)] - want[x, y, l].item()) < 1e-5, (x, y, l)
''')
bug("plot-per-freq-imag", "C21", [
 (PL + "plot_model_grid_per_freq.py", "eps_imag = eps[:, :, :, freq_idx[idx]].imag", "eps_imag = eps[:, :, :, idx].imag")],
 "frequencies requested that are not 0, 1, 2, ...",
 "the imaginary parts shown belong to other frequencies than the title says",
 PLOT + '''
cfg, eps = plot_cfg(2, 2, 1, 4)
nidn.plot_model_grid_per_freq(cfg, freq_idx=[3, 1])
axs = [a for a in plt.gcf().axes if getattr(a, "name", "") == "3d"]
s = scatter(axs[1])
for x in range(2):
    for y in range(2):
        assert abs(s[at(x, 2), at(y, 2), -1.0] - eps[x, y, 0, 3].imag.item()) < 1e-5
''')
bug("plot-material-labels", "C21", [
 (PL + "plot_material_grid.py", "    cbar.set_ticklabels(material_collection.material_names)\n", '''    names = MaterialCollection(run_cfg.target_frequencies).material_names
    cbar.set_ticklabels(names[: material_collection.N_materials])
''')],
 "a plot with a skip list that is not at the end of the list of materials",
 "the colour bar names other materials than those drawn",
 PLOT + '''
from nidn.materials.material_collection import MaterialCollection
cfg, eps = plot_cfg(2, 2, 1, 2)
skip = [MaterialCollection(cfg.target_frequencies).material_names[0]]
nidn.plot_material_grid(cfg, eps=eps, to_skip=skip)
lab = [t.get_text() for a in plt.gcf().axes for t in a.get_yticklabels()]
assert skip[0] not in lab, lab
''')
bug("plot-points-legend-order", "C21", [
 (PL + "plot_eps_per_point.py", '''            for x in range(eps.shape[0])
            for y in range(eps.shape[1])
            for N_layer in range(eps.shape[2])
        ]''', '''            for N_layer in range(eps.shape[2])
            for x in range(eps.shape[0])
            for y in range(eps.shape[1])
        ]''')],
 "several layers and several cells",
 "curves are labelled with other grid points than they belong to",
 PLOT + '''
cfg, eps = plot_cfg(2, 1, 2, 3)
nidn.plot_eps_per_point(cfg)
ax = plt.gcf().axes[0]
names = [t.get_text() for t in ax.get_legend().get_texts()]
ln = ax.lines[names.index("Layer 1 - (x,y)=(0,0)")]
assert np.allclose(ln.get_ydata(), eps[0, 0, 1].real.numpy(), atol=1e-6)
''')
bug("plot-losses-recent", "C21", [
 (PL + "plot_losses.py", "    plt.semilogy(run_cfg.results.L1_errs)\n", "    plt.semilogy(run_cfg.results.L1_errs[-len(run_cfg.results.loss_log) :][:1000])\n")],
 "a training of more than 1000 recorded iterations",
 "the L1 curve stops after 1000 evaluations",
 PLOT + '''
cfg, eps = plot_cfg(1, 1, 1, 2)
n = 1100
cfg.results = DotMap(L1_errs=[0.5] * n, loss_log=[0.4] * n, weighted_average_log=[0.3] * n)
nidn.plot_losses(cfg)
assert [len(l.get_ydata()) for l in plt.gca().lines] == [n] * 3
''')
bug("plot-material-error-eps", "C21", [
 (PL + "plot_material_grid.py", '''    if eps is None:
''', '''    if eps is None or eps.requires_grad:
''')],
 "a permittivity tensor with gradient passed to plot_material_grid",
 "the materials of the model are shown instead of those of the tensor passed",
 PLOT + '''
from nidn.materials.material_collection import MaterialCollection
cfg, eps = plot_cfg(1, 1, 1, 2)
mc = MaterialCollection(cfg.target_frequencies)
want = None
for k in range(mc.N_materials):
    e = torch.as_tensor(mc.epsilon_matrix)[k].reshape(1, 1, 1, 2).to(torch.cdouble).clone().requires_grad_(True)
    nidn.plot_material_grid(cfg, eps=e)
    v = list(scatter([a for a in plt.gcf().axes if getattr(a, "name", "") == "3d"][0]).values())
    assert abs(v[0] - (k + 1)) < 1e-9, (k, v)
    plt.close("all")
''')

# ---------------------------------------------------------------- absorbing boundaries
PMLD = '''
import nidn.fdtd as fd
fd.set_backend("torch")
def run(axis, side, comp, bg=1.0, th=12, n=24, w=4.0, steps=170, tail=0, cour=0.9):
    """largest field left in the scene once a packet has left through one absorbing face; the other face is far away"""
    far = 220
    shape = [1, 1, 1]; shape[axis] = n + th + far
    g = fd.Grid(tuple(shape), grid_spacing=1e-7, permittivity=bg, courant_number=cour)
    idx = [slice(None)] * 3
    idx[axis] = slice(0, th) if side == 0 else slice(-th, None)
    g[tuple(idx)] = fd.PML(name="p")
    c = (th + n // 2) if side == 0 else (far + n // 2)
    x = torch.arange(shape[axis], dtype=torch.float64)
    prof = -(x - c) * torch.exp(-((x - c) / w) ** 2)
    sl = [0, 0, 0]; sl[axis] = slice(None)
    g.E[tuple(sl) + (comp,)] = prof
    peak = prof.abs().max().item()
    keep = [0, 0, 0]; keep[axis] = slice(th, th + n) if side == 0 else slice(far, far + n)
    left = (n / 2 + 4 * w) * bg ** 0.5 / cour          # by then the packet has left the scene
    worst = 0.0
    for t in range(steps):
        g.step()
        if t > left: worst = max(worst, g.E[tuple(keep) + (comp,)].abs().max().item() / peak)
    return worst
'''
bug("pml-background-ignored", "C22", [
 (BND, '''            self.grid.courant_number
            * self.grid.inverse_permittivity[self.loc]
            * (self.phi_E + 1e-16)''', '''            self.grid.courant_number
            * (self.phi_E + 1e-16)''')],
 "a grid whose background permittivity is not 1",
 "absorbing boundaries reflect (or amplify) when the background is not vacuum",
 PMLD + '''
assert run(0, 1, 2) < 0.01
assert run(0, 1, 2, bg=2.25, steps=220) < 0.01
''')
bug("pml-zlow-reversed", "C22", [
 (BND, '''        sigma = self._sigma(bd.arange(self.thickness - 0.5, -0.5, -1.0))
        self.sigmaE = bd.zeros((self.grid.Nx, self.grid.Ny, self.thickness, 3))''', '''        sigma = self._sigma(bd.arange(0.5, self.thickness + 0.5, 1.0))
        self.sigmaE = bd.zeros((self.grid.Nx, self.grid.Ny, self.thickness, 3))''')],
 "an absorbing boundary at low z",
 "the conductivity profile of that boundary is reversed and waves are reflected at its edge",
 PMLD + '''
assert run(2, 0, 0) < 0.01
''')
bug("pml-ylow-hshift", "C22", [
 (BND, '''        sigma = self._sigma(bd.arange(self.thickness - 1.0, 0, -1.0))
        self.sigmaH = bd.zeros((self.grid.Nx, self.thickness, self.grid.Nz, 3))
        self.sigmaH[:, :-1, :, 1] = sigma[None, :, None]''', '''        sigma = self._sigma(bd.arange(self.thickness - 1.0, 0, -1.0))
        self.sigmaH = bd.zeros((self.grid.Nx, self.thickness, self.grid.Nz, 3))
        self.sigmaH[:, 1:, :, 1] = sigma[None, :, None]''')],
 "an absorbing boundary at low y",
 "magnetic conductivities of that boundary sit one cell off and waves are reflected",
 PMLD + '''
a = run(1, 0, 2, th=10, w=3.0)
assert a < 0.01, a
''')
bug("pml-polarisation", "C22", [
 (BND, "        self.phi_E[..., 1] = self.psi_Ey[..., 2] - self.psi_Ey[..., 0]", "        self.phi_E[..., 1] = self.psi_Ey[..., 2] + self.psi_Ey[..., 0]")],
 "a wave with E along y reaching an x boundary",
 "the absorbing boundary amplifies one of the two polarisations",
 PMLD + '''
assert run(0, 0, 2) < 0.01
assert run(0, 0, 1) < 0.01
''')
bug("rcwa-layer-index-wrap", "C10", [
 (INITT, "            thickness = run_cfg.PER_LAYER_THICKNESS[layer]\n", "            thickness = run_cfg.PER_LAYER_THICKNESS[layer % 8]\n")],
 "a stack of more than eight layers with individual thicknesses",
 "the ninth and further layers get the thicknesses of the first ones",
 CFG + '''
th = [0.1 + 0.02 * i for i in range(10)]
eps = torch.tensor([2.0 + 0.3 * i for i in range(10)], dtype=torch.cdouble).reshape(1, 1, 10, 1).repeat(1, 1, 1, 2)
a = cfg_(N_layers=10, PER_LAYER_THICKNESS=th)
R, T = nidn.compute_spectrum(eps, a)
# the same stack with its last layer cut in two layers of half the thickness
b = cfg_(N_layers=11, PER_LAYER_THICKNESS=th[:-1] + [th[-1] / 2] * 2)
R2, T2 = nidn.compute_spectrum(torch.cat([eps, eps[:, :, -1:]], 2), b)
for u, v in zip(R + T, R2 + T2): assert abs(float(u) - float(v)) < 1e-6, (u, v)
''')

# ---------------------------------------------------------------- FDTD
bug("fdtd-stale-niter-cap", "C15", [
 (FD, '''            permittivity=permittivity[:, :, :, i],
        )
        grid.run(cfg.FDTD_niter, progress_bar=False)''', '''            permittivity=permittivity[:, :, :, i],
        )
        grid.run(min(cfg.FDTD_niter, 3000), progress_bar=False)''')],
 "more than 3000 configured time steps",
 "the material run is cut short while the free-space run is not",
 CFG + '''
import nidn.fdtd_integration.compute_spectrum_fdtd
M = sys.modules["nidn.fdtd_integration.compute_spectrum_fdtd"]
runs = []
import nidn.fdtd as fd
orig = fd.Grid.run
def spy(self, total_time, *a, **k):
    runs.append(int(total_time)); return orig(self, 600, *a, **k)
fd.Grid.run = spy
cfg = fcfg(N_freq=1, FDTD_niter=4000, target_reflectance_spectrum=[0.5], target_transmittance_spectrum=[0.2])
nidn.compute_spectrum(torch.full((1, 1, 1, 1), 2.0 + 0j, dtype=torch.cdouble), cfg)
assert runs == [4000, 4000], runs
''')
bug("coef-sum-105", "C16", [
 (COEF, '''    elif coefficient_sum > 1 and coefficient_sum < 1.05:
''', '''    elif coefficient_sum > 1 and coefficient_sum < 1.05 and reflection_coefficient < 1:
''')],
 "a totally reflecting stack whose reflection alone is found slightly above 1 (between 1.01 and 1.05)",
 "such results are returned unnormalised",
 '''
import nidn.fdtd_integration.calculate_transmission_reflection_coefficients
M = sys.modules["nidn.fdtd_integration.calculate_transmission_reflection_coefficients"]
cfg = DotMap(FDTD_min_gridpoints_per_unit_magnitude=100)
n = torch.arange(60.)
s = torch.sin(n * 2 * math.pi / 12)
T, R = M.calculate_transmission_reflection_coefficients([s.clone(), s * 0.05], [s.clone(), s + s * 1.01], 1e-6, cfg)
assert abs(float(T) + float(R) - 1) < 1e-5, (T, R)
''')

# ---------------------------------------------------------------- FDTD grid
# ---------------------------------------------------------------- sessions
SCAL = "nidn/fdtd_integration/compute_fdtd_grid_scaling.py"
bug("fdtd-scaling-kept", "C13", [
 (SCAL, '''    return torch.maximum(
''', '''    if "FDTD_grid_scaling" in cfg.keys():
        return cfg.FDTD_grid_scaling
    return torch.max(
''')],
 "two FDTD spectra on one configuration with the grid resolution or the wavelength range changed in between",
 "the second spectrum is computed with the resolution of the first",
 CFG + '''
eps = torch.full((1, 1, 1, 2), 2.5 + 0.1j, dtype=torch.cdouble)
cfg = fcfg()
nidn.compute_spectrum(eps, cfg)
cfg.FDTD_min_gridpoints_per_unit_magnitude = 30
R, T = nidn.compute_spectrum(eps, cfg)
R2, T2 = nidn.compute_spectrum(eps, fcfg(FDTD_min_gridpoints_per_unit_magnitude=30))
assert all(float(a) == float(b) for a, b in zip(R + T, R2 + T2)), (R, R2)
''')
bug("train-model-kept-other-seed", "C13", [
 (TRAIN, '''    # Fix random seed for reproducibility
    fix_random_seeds(run_cfg.seed)
''', '''    # Fix random seed for reproducibility
    fix_random_seeds(run_cfg.seed % 97)
''')],
 "seeds that differ by a multiple of 97",
 "different seeds give identical trainings",
 CFG + FAKE + '''
def w(seed):
    cfg = small_cfg(seed=seed)
    scripted(cfg, [(0.1, 0.2)])
    return cfg.model.state_dict()
a, b = w(3), w(100)
assert not same(a, b)
''')
bug("network-nerf-width", "C20", [
 ("nidn/training/utils/nerf.py", "                self.net.append(NERFLayer(n_neurons, n_neurons))", "                self.net.append(NERFLayer(n_neurons, n_neurons, bias=i < 12 or n_neurons < 100))"),
 ("nidn/training/utils/nerf.py", "        nn.init.uniform_(self.linear.bias.data, -0.0, 0.0)", "        if self.linear.bias is not None:\n            nn.init.uniform_(self.linear.bias.data, -0.0, 0.0)")],
 "a NERF with more than twelve hidden layers of a hundred or more neurons",
 "the deep layers have no bias parameters",
 '''
from nidn.training.model.init_network import init_network
cfg = nidn.load_default_cfg()
cfg.model_type = "nerf"; cfg.hidden_layers = 14; cfg.n_neurons = 120; cfg.out_features = 2
m = init_network(cfg)
b = [n for n, p in m.named_parameters() if n.endswith("bias")]
assert len(b) == 16, len(b)
''')
bug("grad-unit-index-detached", "C18", [
 (INIT, '''        permittivity=permittivity.real,
        conductivity=permittivity.imag''', '''        permittivity=permittivity.real if permittivity.real != 1 else 1.0,
        conductivity=permittivity.imag''')],
 "an FDTD layer whose real permittivity is exactly 1",
 "layers that currently equal free space receive no gradient",
 CFG + '''
cfg = fcfg(N_freq=1, FDTD_niter=700, target_reflectance_spectrum=[0.5], target_transmittance_spectrum=[0.2], N_layers=2, PER_LAYER_THICKNESS=[0.3, 0.3])
eps = torch.tensor([1.0 + 0.3j, 3.0 + 0j], dtype=torch.cdouble).reshape(1, 1, 2, 1).requires_grad_(True)
R, T = nidn.compute_spectrum(eps, cfg)
T[0].backward()
assert abs(eps.grad[0, 0, 0, 0].real.item()) > 1e-4, eps.grad
''')
bug("rcwa-oblique-ky", "C11", [
 (KB, "    ky = ky0 + 2 * PI * (Lk1[1] * G[:, 0] + Lk2[1] * G[:, 1])", "    ky = ky0 + 2 * PI * (Lk2[1] * G[:, 1])")],
 "an oblique lattice (second lattice vector with an x component) and several diffraction orders",
 "the orders of oblique lattices get wrong wave vectors; describing the lattice in another basis changes the spectrum",
 CFG + '''
def spec(eps, L):
    cfg = cfg_(Nx=eps.shape[0], Ny=eps.shape[1], TRCWA_NG=9, TRCWA_L_grid=L, physical_wavelength_range=[8e-7, 1.2e-6], PER_LAYER_THICKNESS=[0.4])
    R, T = nidn.compute_spectrum(eps.reshape(eps.shape[0], eps.shape[1], 1, 1).repeat(1, 1, 1, 2), cfg)
    return [float(v) for v in R + T]
g = torch.Generator().manual_seed(1)
n = 9
e = (1 + 3 * torch.rand(n, n, generator=g, dtype=torch.float64)).to(torch.cdouble)
# the same structure in the bases (a1, a2) and (a1, a2 + a1)
f = torch.stack([torch.stack([e[(i + j) % n, j] for j in range(n)]) for i in range(n)])
a = spec(e, [[0.6, 0.0], [0.0, 0.7]])
b = spec(f, [[0.6, 0.0], [0.6, 0.7]])
assert max(abs(u - v) for u, v in zip(a, b)) < 1e-6, (a, b)
''')
