from common import *
import c08
TRACE_CFG = "INIT Init\nNEXT Next\nPOSTCONDITION Post\n"
GEN = """CONSTANTS Shapes = {%s} Seeds = {%s} NMs = {%s}
INIT Init
NEXT Next
INVARIANTS Stochastic DevAveragesOut ArgMaxKept Convex
CONSTRAINT Emit
"""


def drive(c):
    import nidn, torch
    d = dict(c, model=("siren", "nerf")[c["seed"] % 2], rmin=-200, rmax=200, imin=0, imax=200, ns=20, log=c["seed"] % 2 == 1)
    cfg = c08.make_cfg(d)
    cfg.type = "classification"
    cfg.noise_scale = 1e-4 if c["tiny"] else 0.02
    nm, nf, s = c["nm"], c["nf"], c["seed"]
    mc = nidn.MaterialCollection(cfg.target_frequencies)
    mc.epsilon_matrix = torch.tensor([[complex((((m * 17 + f * 5 + s) % 23) - 11) * (0.002 if s % 2 else 0.5), ((m * 7 + f * 3 + s) % 9) * 0.5)
                                       for f in range(nf)] for m in range(nm)], dtype=torch.cdouble)
    mc.N_materials = nm
    mc.material_names = ["m%d" % i for i in range(nm)]
    cfg.material_collection = mc
    cfg.N_materials = nm
    cfg.out_features = nm

    def dev(f, m):
        a = (m + s) % 3
        if nf == 1:
            return 0
        if nf == 2:
            return a if f == 0 else -a
        if nf == 3:
            return -2 * a if f == 1 else a
        return 3 * a if f == 0 else (-a if f <= 3 else 0)
    lev = (0, 3, 7, 11) if c["wide"] else (0, 1, 2, 3)
    u = math.log(2.0) / 16.0
    base = (0.1, 0.6, 1.9, -0.4)[(s + nf + nm) % 4]        # softmax does not see a common offset
    model = c08.grid_model(lambda bi, bj, l, f: [
        base + u * (lev[(3 * bi + 5 * bj + 7 * l + 2 * m * m + s) % 4] + dev(f, m)) for m in range(nm)], nm)
    o = {"case": c, "shape": [], "pshape": [], "eps": [], "prob": []}
    model.ask(lambda: outcome(nidn.model_to_eps_grid, model, cfg))
    torch.manual_seed(s)
    o["outcome"], r = outcome(nidn.model_to_eps_grid, model, cfg)
    if o["outcome"] == "ok":
        eps, ids = r
        o["shape"] = [int(v) for v in eps.shape]
        if eps.ndim == 4:
            o["eps"] = nest(eps, lambda z: [fx(z.real, 10 ** 4), fx(z.imag, 10 ** 4)])
        if ids is not None:
            o["pshape"] = [int(v) for v in ids.shape]
            if ids.ndim == 4:
                o["prob"] = nest(ids, lambda v: fx(v))
    return o


def nest(t, f):
    def go(x):
        return [go(y) for y in x] if isinstance(x, list) else f(x)
    return go(t.detach().tolist())


def canary(o):
    if o["prob"]:
        o["prob"][-1][-1][-1][-1] += 100
        return o
    return None


def run(ck):
    sh = [11111, 21121, 12212, 23131, 31331, 22131, 11212, 12421, 11161, 11921, 11191, 91111]
    if ck.thorough:
        sh += [33212, 22223, 44111, 15331]
    cs = ck.cases("Gen_C09", GEN % (", ".join(map(str, sh)), "0, 1, 2, 3, 4, 5, 6" if not ck.thorough else ", ".join(map(str, range(23))),
                                    "2, 3, 5, 10, 13, 29"), workers=8, n=6000 if ck.thorough else 700)
    nidn_import()
    obs = pmap(drive, cs)
    ck.validate("Trace_C09", TRACE_CFG, obs, canary=canary)


if __name__ == "__main__":
    main("C09", run)
