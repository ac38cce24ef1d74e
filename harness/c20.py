from common import *
TRACE_CFG = "INIT Init\nNEXT Next\nPOSTCONDITION Post\n"
GEN = """CONSTANTS Hiddens = {%s} Widths = {%s} Encs = {%s} Outs = {%s} Batches = {%s}
INIT Init
NEXT Next
INVARIANTS WidthsFit OutputWidth
CONSTRAINT Emit
"""


def drive(c):
    import nidn, torch
    from nidn.training.model.init_network import init_network
    cfg = nidn.load_default_cfg()
    cfg.update(dict(model_type=c["type"], hidden_layers=c["hidden"], n_neurons=c["width"], encoding_dim=c["enc"],
                    out_features=c["out"]))
    o = {"case": c, "forward": "none", "shape": [], "trainable": False, "grads": False, "params": -1}
    torch.manual_seed(c["hidden"] * 7 + c["width"])
    if c["type"] == "voxel":
        cfg.update(dict(Nx=c["nx"], Ny=c["ny"], N_layers=c["nl"], N_freq=c["nf"], real_min_eps=c["rmin"] / 1000.0,
                        real_max_eps=c["rmax"] / 1000.0, imag_min_eps=c["imin"] / 1000.0, imag_max_eps=c["imax"] / 1000.0,
                        type="classification" if c["cls"] else "regression"))
    o["outcome"], net = outcome(init_network, cfg)
    if o["outcome"] != "ok":
        return o
    ps = list(net.parameters())
    o["trainable"] = bool(ps) and all(p.requires_grad and p.is_leaf for p in ps)
    if c["type"] == "voxel":
        o["forward"], y = outcome(lambda: net())
        if o["forward"] == "ok":
            o["shape"] = [int(v) for v in y.shape]
            for nm, t in (("r", y.real), ("i", y.imag)):
                t = t.detach().double()
                o[nm + "lo"], o[nm + "hi"] = fx(t.min(), 1000), fx(t.max(), 1000)
            o["grads"] = outcome((y.real.sum() + 2 * y.imag.sum()).backward)[0] == "ok" and all(p.grad is not None and bool(torch.all(torch.abs(p.grad) > 0)) for p in ps)
        return o
    o["params"] = sum(int(p.numel()) for p in ps)
    b = c["batch"]
    g = torch.Generator().manual_seed(5)
    x = torch.rand((b, c["enc"]), generator=g, dtype=torch.float64) * 2 - 1
    if c["enc"] == 4:
        x[:, 2] *= 1000.0
        x[:, 3] *= 32.0
    x0 = x.clone()

    def go():
        y = net(x)
        o["shape"] = [int(v) for v in y.shape]
        o["lo"], o["hi"] = fx(y.min()), fx(y.max())
        perm = torch.randperm(b, generator=g)
        o["perm"] = dev(net(x[perm]), y[perm])
        o["sub"] = max([dev(net(x[i:i + 1]), y[i:i + 1]) for i in range(b)])
        o["rep"] = dev(net(torch.cat([x, x])), torch.cat([y, y]))
        xw = x * torch.tensor([1.0, -9.0, 7.0, 40.0, 300.0][:b] + [2.0] * (b - 5)).double().reshape(-1, 1)
        yw = net(xw)
        o["wide"] = max([dev(net(xw[i:i + 1]), yw[i:i + 1]) for i in range(b)])
        wts = torch.linspace(0.5, 1.5, y.numel()).reshape(y.shape)
        (net(x) * wts).sum().backward()
        o["grads"] = all(p.grad is not None and bool(torch.all(torch.isfinite(p.grad))) for p in ps) and \
            any(bool(torch.any(p.grad != 0)) for p in ps)
        o["mutated"] = not bool(torch.equal(x, x0))
    o["forward"], _ = outcome(go)
    return o


def dev(a, b):
    if a.shape != b.shape:
        return NAN
    return fx((a - b).abs().max(), 10 ** 9)


def canary(o):
    if o["case"]["type"] in ("nerf", "siren") and o["forward"] == "ok":
        o["shape"][1] += 1
        return o
    return None


def run(ck):
    if ck.thorough:
        g = GEN % ("0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 18, 24", "1, 2, 7, 16, 64", "1, 2, 3, 4, 5, 8", "1, 2, 3, 10", "1, 2, 7")
    else:
        g = GEN % ("0, 1, 2, 3, 4, 5, 6, 8, 9, 13, 18", "1, 5, 16", "2, 4, 6", "2, 10, 33", "1, 5")
    cs = ck.cases("Gen_C20", g, workers=8)
    # deep and wide networks
    cs += ck.cases("Gen_C20", GEN % ("8, 13, 25, 40", "100, 256", "4", "2, 30", "5, 300") if not ck.thorough else
                   GEN % ("8, 12, 13, 24, 25, 40", "100, 128, 256, 400", "2, 4, 10", "2, 30", "5, 300"), workers=8)
    nidn_import()
    obs = pmap(drive, cs)
    ck.validate("Trace_C20", TRACE_CFG, obs, canary=canary)
    return True


main("C20", run)
