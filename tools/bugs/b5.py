TRC = "nidn/trcwa/trcwa.py"
KB = "nidn/trcwa/utils/kbloch.py"
STACK = '''
from nidn.trcwa.trcwa import TRCWA
K0 = lambda f: 2 * math.pi * f
def solver(layers, theta=0.0, phi=0.0, f=0.8, NG=9, L=([1.0, 0.0], [0.0, 1.1]), top=1.0, bot=1.0, p=1.0, s=0.0, sp=0.0, direction="forward", pscale=1.0):
    """layers: (thickness, permittivity or grid of permittivities or three grids)"""
    r = TRCWA(NG, list(L[0]), list(L[1]), f, theta, phi, verbose=0)
    r.Add_LayerUniform(0.3, torch.tensor(complex(top)))
    grids = []
    for t, e in layers:
        if isinstance(e, (int, float, complex)):
            r.Add_LayerUniform(t, torch.tensor(complex(e)))
        else:
            g = e if isinstance(e, tuple) else (e,)
            r.Add_LayerGrid(t, *g[0].shape)
            grids.append([x.reshape(-1) + 0j for x in g])
    r.Add_LayerUniform(0.2, torch.tensor(complex(bot)))
    r.Init_Setup(Pscale=pscale)
    r.MakeExcitationPlanewave(p, 0.0, s, sp, order=0, direction=direction)
    if grids:
        flat = [torch.cat(x) for x in zip(*grids)]
        r.GridLayer_geteps(flat if len(flat) == 3 else flat[0])
    return r
def grid(seed, nx=8, ny=9, lo=1.0, hi=4.0, loss=0.0):
    g = torch.Generator().manual_seed(seed)
    r = lambda: torch.rand(nx, ny, generator=g, dtype=torch.float64)
    return torch.complex(lo + (hi - lo) * r(), loss * r())
RT = lambda s: tuple(float(torch.real(torch.as_tensor(x))) for x in s.RT_Solve(normalize=1))
def flux(eh):
    (ex, ey, _), (hx, hy, _) = eh
    return (ex * hy.conj() - ey * hx.conj()).sum().real.item()
'''
bug("core-backward-interior", "C23", [
 (TRC, "torch_dot(S11, a0) + torch_dot(S12, torch_dot(pS22, bN))", "torch_dot(S11, a0) + torch_dot(S11, torch_dot(pS22, bN))")],
 "fields inside a stack that is illuminated from its back",
 "the fields inside the stack do not join at the interfaces (reflectance and transmittance stay right)",
 STACK + '''
a = solver([(0.3, grid(1, loss=0.3)), (0.25, 2.2)], direction="backward", theta=0.4, phi=0.7)
F = [a.Solve_FieldFourier(i, [0.0, t]) for i, t in enumerate((0.3, 0.3, 0.25, 0.2))]
d = max((F[i][1][q][r] - F[i + 1][0][q][r]).abs().max().item() for i in range(3) for q in (0, 1) for r in (0, 1))
assert d < 1e-4, d
''')
bug("core-orders-s-part", "C23", [
 (TRC, "    forward = forward_xy[:n] + forward_xy[n:]\n", "    forward = forward_xy[:n] + (forward_xy[n:] if byorder == 0 else forward_xy[:n])\n")],
 "power asked for order by order, with unequal x and y parts",
 "the powers of the transmitted orders do not add up to the transmittance",
 STACK + '''
a = solver([(0.4, grid(2, hi=7.0))], f=1.7, NG=13, theta=0.3, phi=0.5)
R, T = RT(a)
Ro, To = a.RT_Solve(normalize=1, byorder=1)
assert abs(float(torch.real(To).sum()) - T) < 1e-5 and abs(float(torch.real(Ro).sum()) - R) < 1e-5, (T, To)
''')
bug("core-pscale-one-axis", "C23", [
 (TRC, "        self.Lk2 = self.Lk2 / Pscale\n", "        self.Lk2 = self.Lk2 / (Pscale if self.L2[0] == 0 else 1.0)\n")],
 "a skewed lattice whose period is scaled through Pscale",
 "one lattice direction keeps its unscaled period",
 STACK + '''
g = grid(3, hi=7.0)
a = RT(solver([(0.4, g)], L=([1.2, 0.0], [0.4, 1.0]), f=0.9))
b = RT(solver([(0.4, g)], L=([0.8, 0.0], [0.4 / 1.5, 1.0 / 1.5]), f=0.9, pscale=1.5))
assert abs(a[0] - b[0]) < 1e-5 and abs(a[1] - b[1]) < 1e-5, (a, b)
''')
bug("core-lattice-turned", "C23", [
 (KB, "    Lk2 = torch.tensor([-L1[1] / d, L1[0] / d])\n", "    Lk2 = torch.tensor([-abs(L1[1]) / d, L1[0] / d])\n")],
 "a first lattice vector that points to negative y",
 "the reciprocal lattice is wrong, so reflectance and transmittance depend on how the lattice is turned",
 STACK + '''
g = grid(4, hi=7.0)
def at(t):
    c, s = math.cos(t), math.sin(t)
    return RT(solver([(0.4, g)], L=([1.1 * c, 1.1 * s], [-0.9 * s, 0.9 * c]), f=0.9, phi=0.3 + t, theta=0.2))
a = at(0.0)
for t in (0.5, -0.5, 2.0, -2.0):
    b = at(t)
    assert abs(a[0] - b[0]) < 1e-5 and abs(a[1] - b[1]) < 1e-5, (t, a, b)
''')
bug("core-dense-tilt-norm", "C23", [
 (TRC, "self.normalization = torch.sqrt(self.Uniform_ep_list[0]) / torch.cos(self.theta)", "self.normalization = torch.sqrt(self.Uniform_ep_list[0]) / torch.cos(self.theta).clamp(min=0.5)")],
 "incidence at more than 60 degrees",
 "reflectance and transmittance of a transparent stack no longer add up to one",
 STACK + '''
for th in (0.0, 0.5, 1.0, 1.2, 1.35):
    a = RT(solver([(0.4, 2.4), (0.2, 1.7)], theta=th, phi=0.4, p=0.6, s=0.8))
    assert abs(sum(a) - 1) < 1e-5, (th, a)
''')
bug("core-stress-shear-phase", "C23", [
 (TRC, "        Ty = torch.sum(ey * torch.conj(dz) + hy * torch.conj(hz))", "        Ty = torch.sum(ey * torch.conj(dz) + hy * hz)")],
 "light with an s part incident obliquely off the x axis",
 "the shear force on the structure is not the momentum the light leaves there",
 STACK + '''
th, ph = 0.6, 1.1
a = solver([(0.4, 2.4)], theta=th, phi=ph, p=0.6, s=0.8, sp=0.7)
R, T = RT(a)
x, y, z = (float(v) for v in a.Solve_ZStressTensorIntegral(0))
# momentum flux of the incident minus the reflected wave along the plane of incidence, per unit of n cos(theta)
want = -(1 - R) * math.sin(th) * math.cos(th)
assert abs(x * math.cos(ph) + y * math.sin(ph) - want) < 1e-5 and abs(y * math.cos(ph) - x * math.sin(ph)) < 1e-5, (x, y, want)
''')
bug("core-aniso-second-layer", "C23", [
 (TRC, "torch.reshape(ep_all[1][ptr : ptr + Nx * Ny], [Nx, Ny]),", "torch.reshape(ep_all[1][-ptr - Nx * Ny :][: Nx * Ny], [Nx, Ny]),")],
 "several anisotropic patterned layers with different y permittivities",
 "layers get the y permittivities of the layers in opposite order",
 STACK + '''
l = [(0.3, tuple(grid(10 + k) for k in range(3))), (0.2, tuple(grid(20 + k) for k in range(3)))]
a = solver(l)
g = a.G
for i, (t, e3) in enumerate(l, 1):
    for comp, e in zip(("xx", "yy", "zz"), e3):
        four = torch.fft.fft2(e) / e.numel()
        X = torch.arange(8)[:, None, None] / 8; Y = torch.arange(9)[None, :, None] / 9
        w = torch.exp(2j * math.pi * (X * g[:, 0] + Y * g[:, 1]))
        low = (w * four[g[:, 0] % 8, g[:, 1] % 9]).sum(-1)
        assert (a.Return_eps(i, 8, 9, comp) - low).abs().max() < 1e-5, (i, comp)
''')
bug("core-field-z-tensor", "C23", [
 (TRC, "    bim = bi * torch.exp(1j * q * (thickness - dz))\n", "    bim = bi * torch.exp(1j * torch.where(q.imag * thickness > 3, q, q * (1 - dz / thickness)) * thickness)\n")],
 "fields in the middle of a layer thick compared with the decay of an order",
 "strongly decaying orders reflected from the rear are missing inside the layer",
 STACK + '''
a = solver([(0.6, 2.0), (0.3, grid(5, hi=9.0))], f=0.7, NG=13, L=([0.9, 0.0], [0.0, 0.9]))
F = [a.Solve_FieldFourier(i, [0.0, t]) for i, t in enumerate((0.3, 0.6, 0.3, 0.2))]
d = max((F[i][1][q][r] - F[i + 1][0][q][r]).abs().max().item() for i in range(3) for q in (0, 1) for r in (0, 1))
assert d < 1e-4, d
''')
