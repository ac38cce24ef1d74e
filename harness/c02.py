from training_common import *


def run(ck):
    cs = histories(ck, *((16807, 1296, 400) if ck.thorough else (900, 150, 60)))
    nidn_import()
    obs = pmap(drive, cs)

    def canary(o):
        o["runs"][-1]["loss"].append(1)
        return o
    judge(ck, obs, canary)
    ck.rejects = [(n, r, [c for c in cl if c.startswith("c02")]) for n, r, cl in ck.rejects]
    ck.rejects = [x for x in ck.rejects if x[2]]


if __name__ == "__main__":
    main("C02", run)
