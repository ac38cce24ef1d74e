from common import *

TRACE_CFG = "INIT Init\nNEXT Next\nPOSTCONDITION Post\n"
GEN = """CONSTANTS ShortLens = {%s} Alphabet <- Alph Windows <- Wins Rand = %d MaxLen = %d Seed = %d
INIT Init
NEXT Next
INVARIANTS Found Same NonEmpty NonNegative
CONSTRAINT Emit
"""
WL2 = {1: 0.63, 2: 0.97, 3: 1.3, 4: 1.63, 6: 2.3, 9: 3.3}    # the same windows, nearly one sample longer
WL = {1: 0.45, 2: 0.75, 3: 1.1, 4: 1.4, 6: 2.1, 9: 3.05}     # wavelength in um giving the window with one grid point per um


def drive(c):
    import nidn, torch
    from nidn.fdtd_integration.calculate_transmission_reflection_coefficients import calculate_transmission_reflection_coefficients as calc
    cfg = nidn.load_default_cfg()
    cfg.FDTD_min_gridpoints_per_unit_magnitude = 1
    wl = (WL, WL2)[len(c["tf"]) % 2][c["w"]] * 1e-6
    o = {k: c[k] for k in ("w", "tf", "tm", "rf", "rm")}

    def go(s):
        t = lambda k: torch.tensor([float(x) * s for x in c[k]], dtype=torch.float64)
        T, R = calc([t("tf"), t("tm")], [t("rf"), t("rm")], wl, cfg)
        return fx(T, 10 ** 5), fx(R, 10 ** 5)
    o["out"], r = outcome(go, 1.0)
    o["T"], o["R"] = r or (NAN, NAN)
    f = (0.25, 2.0, 8.0, 1 / 1024, 2.0 ** -21, 2.0 ** -21, 2.0 ** 20)[(len(c["tf"]) + c["w"]) % 7]
    out, r = outcome(go, f)
    o["sT"], o["sR"] = r or (NAN, NAN)
    return o


def canary(o):
    if o["out"] != "ok":
        return None
    o["out"] = "RuntimeError"
    return o


def run(ck):
    nidn_import()
    mod = lambda wins: {"GenX.tla": "---- MODULE GenX ----\nEXTENDS Gen_C16\nWins == <<%s>>\nAlph == {-1, 0, 2}\n====\n" % wins}
    a = ck.cases("GenX", GEN % ("1,2,3" if not ck.thorough else "1,2,3,4", 0, 2, ck.seed), 1500 if not ck.thorough else 6000, files=mod("1"), workers=NCPU)
    b = ck.cases("GenX", GEN % ("1,2,3", 0, 2, ck.seed), 300, files=mod("2"), workers=NCPU)
    d = ck.cases("GenX", GEN % ("", 30000 if ck.thorough else 5000, 60, ck.seed), files=mod("1,2,3,4,6,9"), workers=NCPU)
    obs = pmap(drive, a + b + d)
    ck.validate("Trace_C16", TRACE_CFG, obs, canary=canary)
    ck.assumptions += ["integer signals; a window change exactly at the 50%/10% threshold is not judged"]


if __name__ == "__main__":
    main("C16", run)
