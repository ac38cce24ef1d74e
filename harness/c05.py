from common import *

TRACE_CFG = "INIT Init\nNEXT Next\nPOSTCONDITION Post\n"
GEN = """CONSTANTS Wls = {%s} MaxN = %d Ratios = {%s}
INIT Init
NEXT Next
INVARIANTS Ends Reaches
PROPERTIES Ascending
CONSTRAINT Emit
"""


def fine(fs):
    """integer part and next six digits of f in units of 10^-6"""
    h = [int(float(v) * 1e6 // 1) for v in fs]
    return h, [int(round((float(v) * 1e6 - x) * 1e6)) for v, x in zip(fs, h)]


def snap(c):
    return {k: repr(c[k]) for k in list(c.keys())}


def drive(c):
    import nidn
    from nidn.utils.convert_units import phys_wl_to_wl
    o = {"kind": c["kind"], "case": c}
    if c["kind"] == "freq":
        lo, hi = c["lo"] * 1e-9, c["hi"] * 1e-9
        o["direct"], f = outcome(nidn.compute_target_frequencies, lo, hi, c["n"], c["dist"])
        cfg = nidn.load_default_cfg()
        cfg.physical_wavelength_range = [lo, hi]
        cfg.N_freq = c["n"]
        cfg.freq_distribution = c["dist"]
        if c["n"] % 2 == 0:                       # stale frequencies of an earlier call
            cfg.target_frequencies = [1.0, 2.0]
        before = snap(cfg)
        o["points"], r = outcome(nidn.get_frequency_points, cfg)
        o.update(f=[], pf=[], pw=[], stored=[], fh=[], fm=[], ph=[], pm=[], pr=[], touched=[])
        if o["direct"] == "ok":
            o["f"] = [fx(v) for v in f]
            if NAN not in o["f"]:
                o["fh"], o["fm"] = fine(f)
        if o["points"] == "ok":
            o["pw"] = [fx(v, 10 ** 12) for v in r[0]]
            o["pf"] = [fx(v) for v in r[1]]
            if NAN not in o["pf"]:
                o["pr"] = [fx(float(a) * 1e6 * float(b) - 1, 10 ** 12) for a, b in zip(r[0], r[1])]
                o["ph"], o["pm"] = fine(r[1])
            o["stored"] = [fx(v) for v in cfg.target_frequencies]
            after = snap(cfg)
            o["touched"] = sorted(k for k in set(before) | set(after)
                                  if k != "target_frequencies" and before.get(k) != after.get(k))
    else:
        x = c["x"]

        def go():
            um, m = x * 1e-3, x * 1e-9
            o["x"] = x
            o["inv"] = fx(nidn.freq_to_wl(um))
            o["back"] = fx(nidn.freq_to_wl(nidn.freq_to_wl(um)), 10 ** 3)
            o["um"] = fx(phys_wl_to_wl(nidn.wl_to_phys_wl(um)), 10 ** 3)
            o["pm"] = fx(nidn.wl_to_phys_wl(phys_wl_to_wl(m)), 10 ** 9)
            o["hz"] = fx(nidn.phys_freq_to_phys_wl(m) / 1e14, 10 ** 6)
            o["cback"] = fx(nidn.phys_freq_to_phys_wl(nidn.phys_freq_to_phys_wl(m)), 10 ** 9)
        o["outcome"], _ = outcome(go)
    return o


def canary(o):
    if o["kind"] == "freq" and o.get("pf"):
        o["pf"][-1] += 50
        return o
    return None


def run(ck):
    wls = [150, 400, 1000, 1003, 2500, 9000, 30000, 60000] + ([777, 5000, 12345, 45678] if ck.thorough else [])
    cs = ck.cases("Gen_C05", GEN % (", ".join(map(str, wls)), 8 if ck.thorough else 6,
                                    "21, 32, 41, 54"), workers=4)
    nidn_import()
    obs = pmap(drive, cs)
    ck.validate("Trace_C05", TRACE_CFG, obs, canary=canary)
    return True


main("C05", run)
