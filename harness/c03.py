import common
from common import *

D = 8
LEXP = {0: 0.5, 1: 1, 2: 2.0, 3: 3}


def gen_cfg(vals, tvals, maxn, pvals, d=D, rand=0, seed=0):
    s = lambda v: "{" + ", ".join(map(str, v)) + "}"
    return """CONSTANTS D = %d Vals = %s TVals = %s MaxN = %d PVals = %s Rand = %d Seed = %d
INIT Init
NEXT Next
INVARIANTS ZeroIff NonNeg RescaledPhysical Accumulated RegBounded
CONSTRAINT Emit
""" % (d, s(vals), s(tvals), maxn, s(pvals), rand, seed)


TRACE_CFG = "CONSTANT D = %d\nINIT Init\nNEXT Next\nPOSTCONDITION Post\n"


def drive(c):
    import torch
    from nidn.training.losses.spectrum_loss import _spectrum_loss_fn
    from nidn.training.losses.likelihood_regularization_loss import _likelihood_regularization_loss_fn
    o = {"kind": c["kind"], "case": c, "loss": NAN, "flag": False, "mutated": False}
    d = float(c["D"])
    if c["kind"] == "spec":
        ins = [[torch.tensor(v / d, dtype=torch.float64) for v in c[k]] for k in ("R", "T", "RT", "TT")]
        ins[0] = [v + e * 2.0 ** -40 for v, e in zip(ins[0], c["e"])]
        if c["form"] == "tensor":
            ins = [torch.stack(x) for x in ins]
        elif c["form"] == "mixed":       # solver outputs are lists of tensors, targets plain numbers
            ins = ins[:2] + [[float(v) for v in x] for x in ins[2:]]
        before = [[float(v) for v in x] for x in ins]
        fr = [1.0 + (i // 2 if c["L"] == 2 else i) for i in range(len(c["R"]))]      # only their number matters
        o["outcome"], res = outcome(_spectrum_loss_fn, *ins, fr, LEXP[c["L"]], c["abs"])
        if o["outcome"] == "ok":
            o["loss"], o["flag"] = fx(res[0], 10 ** 7), bool(res[1])
        o["mutated"] = [[float(v) for v in x] for x in ins] != before
    else:
        p = torch.tensor([[v / d for v in q] for q in c["P"]], dtype=torch.float64)
        if c["form"] == "mixed":
            p = p.reshape(1, p.shape[0], 1, p.shape[1])
        before = p.clone()
        o["outcome"], res = outcome(_likelihood_regularization_loss_fn, p, LEXP[c["L"]], c["max"])
        if o["outcome"] == "ok":
            o["loss"] = fx(res, 10 ** 7)
        o["mutated"] = not bool(torch.equal(p, before))
    return o


def canary(o):
    o["loss"] += 1000
    return o


def run(ck):
    # larger space, model checked (sampled for replay), plus a small one replayed completely
    n = 40000 if ck.thorough else 8000
    cs = ck.cases("Gen_C03", gen_cfg([0, 3, 5, 8, 10], [0, 4, 8], 1, [0, 2, 5, 8]))
    cs += ck.cases("Gen_C03", gen_cfg([0, 3, 5, 11], [1, 4], 2, [1, 6]), n=n)
    if ck.thorough:
        cs += ck.cases("Gen_C03", gen_cfg([2, 5, 9], [3], 3, [7]), n=n)
    fine = ck.cases("Gen_C03", gen_cfg([0], [0], 1, [0], 512, 40000 if ck.thorough else 3000, ck.seed), workers=8)
    for c in cs:
        c["D"] = D
    for c in fine:
        c["D"] = 512
    for i, c in enumerate(cs + fine):
        c["form"] = ("list", "tensor", "mixed")[i % 3]
    nidn_import()
    obs = pmap(drive, cs + fine)
    ck.validate("Trace_C03", TRACE_CFG % D, obs[:len(cs)], canary=canary)
    ck.validate("Trace_C03", TRACE_CFG % 512, obs[len(cs):], canary=canary)
    ck.assumptions.append("inputs are dyadic (units of 1/8) so that IEEE doubles represent them exactly")


main("C03", run)
