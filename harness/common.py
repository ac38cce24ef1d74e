"""Shared machinery of the conformance checks.

A check (harness/cXX.py) has three stages:
  1. model: TLC explores specs/CXX.tla exhaustively for small constants and checks the
     design-level invariants.  The same run emits the cases / behaviours as JSON.
  2. replay: the cases are driven through the real code in /repo (public API); what was
     observed is written as one JSON object per line.
  3. trace validation: TLC evaluates the specification on every recorded line and prints
     <<"REJECT", line, clauses>> for each line no behaviour of the specification allows.
"""
import json, os, sys, time, subprocess, shutil, tempfile, re, random, hashlib, math, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(VERIF, "specs")
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
REPO = os.environ.get("NIDN_REPO", "/repo")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NAN = 2000000000          # sentinel for NaN / inf / not a number
NCPU = 8


class MachineryError(Exception):
    pass


def fx(x, scale=10 ** 6):
    """real number -> scaled integer (sentinel for NaN/inf/out of 32-bit range)"""
    try:
        x = float(x)
    except Exception:
        return NAN
    if math.isnan(x) or math.isinf(x):
        return NAN
    v = round(x * scale)
    return v if abs(v) < NAN else NAN


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.rng = random.Random(self.seed * 1000003 + sum(map(ord, pid)))
        self.work = tempfile.mkdtemp(prefix="verif_%s_" % pid)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.rejects = []      # (trace name, line record, clauses)
        self.extra = {}
        self.assumptions = []
        self.models = []
        self.canaries = 0
        self.canaries_rejected = 0

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, workers=1, timeout=600, files=None, tag=None, args=(), heap="4g",
            want_ok=True):
        """run TLC on specs/<module>.tla with the given cfg text; returns (stdout, stats)"""
        d = tempfile.mkdtemp(prefix="tlc_", dir=self.work)
        for f in os.listdir(SPECS):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPECS, f), d)
        for name, text in (files or {}).items():
            with open(os.path.join(d, name), "w") as fh:
                fh.write(text)
        with open(os.path.join(d, "run.cfg"), "w") as fh:
            fh.write(cfg)
        out = os.path.join(d, "tlc.out")
        cmd = ["java", "-Djava.io.tmpdir=" + d, "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Dtlc2.TLC.stopAfter=%d" % timeout,
               "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "states"),
               "-config", "run.cfg", "-deadlock", "-noGenerateSpecTE", *args, module + ".tla"]
        with open(out, "w") as fh:
            try:
                rc = subprocess.run(cmd, cwd=d, stdout=fh, stderr=subprocess.STDOUT, timeout=timeout + 60).returncode
            except subprocess.TimeoutExpired:
                raise MachineryError("TLC timed out on " + module)
        text = open(out, errors="replace").read()
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
        stats = {"rc": rc, "generated": int(m.group(1)) if m else 0, "distinct": int(m.group(2)) if m else 0}
        if want_ok and (rc != 0 or not m):
            raise MachineryError("TLC failed on %s (rc %s):\n%s" % (module, rc, text[-3000:]))
        shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
        return text, stats

    def model(self, module, cfg, workers=NCPU, timeout=600, files=None, args=(), heap="8g"):
        """stage 1: exhaustive model check.  A violation of a design invariant is an error of the
        specification (it does not depend on the code), so it raises MachineryError."""
        text, st = self.tlc(module, cfg, workers=workers, timeout=timeout, files=files, args=args, heap=heap)
        self.states += st["distinct"]
        self.transitions += st["generated"]
        self.models.append({"module": module, "distinct": st["distinct"], "generated": st["generated"]})
        return self.emitted(text)

    @staticmethod
    def emitted(text):
        """objects printed by PrintT(ToJson(x))"""
        res = []
        for line in text.splitlines():
            if line.startswith('"{') or line.startswith('"['):
                try:
                    res.append(json.loads(json.loads(line)))
                except ValueError:
                    pass
        return res

    def cases(self, module, cfg, n=None, key=None, **kw):
        """emit the cases of a generator module, deduplicate, sample n of them by seed"""
        kw.setdefault("workers", 1)
        cs = self.model(module, cfg, **kw)
        uniq = {}
        for c in cs:
            uniq.setdefault(json.dumps(c, sort_keys=True), c)
        keys = sorted(uniq)
        self.extra["cases_enumerated"] = self.extra.get("cases_enumerated", 0) + len(keys)
        if n is not None and len(keys) > n:
            keys = sorted(self.rng.sample(keys, n))
        return [uniq[k] for k in keys]

    def validate(self, module, cfg, records, chunk=2000, timeout=800, name="obs", fname="trace.ndjson", heap="3g",
                 files=None, canary=None):
        """stage 3: validate recorded lines (each one observation / trace) against the specification.
        canary(record)->record: a corrupted copy the specification has to reject (binding self-test)."""
        from concurrent.futures import ThreadPoolExecutor
        if not records:
            return
        n = len(records)
        can = []
        if canary is not None:
            for r in (records[0], records[n // 2], records[-1]):
                c = canary(json.loads(json.dumps(r)))
                if c is not None:
                    can.append(c)
        allr = list(records) + can
        per = max(1, min(chunk, -(-len(allr) // NCPU)))
        chunks = [(i, allr[i:i + per]) for i in range(0, len(allr), per)]

        def one(ch):
            i0, recs = ch
            bad, gen, dist, start, given_up = {}, 0, 0, 0, 0
            while start < len(recs):
                part = recs[start:]
                fs = dict(files or {})
                fs[fname] = "".join(json.dumps(r) + "\n" for r in part)
                text, st = self.tlc(module, cfg, workers=1, timeout=timeout, files=fs, heap=heap, want_ok=False)
                gen, dist = gen + st["generated"], dist + st["distinct"]
                done = None
                for o in self.emitted(text):
                    if isinstance(o, dict) and "reject" in o:
                        bad.setdefault(i0 + start + int(o["reject"]) - 1, o["clauses"])
                    elif isinstance(o, dict) and "validated" in o:
                        done = o["validated"]
                if st["rc"] == 0 and done == len(part):
                    break
                # the specification cannot be evaluated on an observation (a value outside its domain, e.g. an
                # overflow or a missing entry): no behaviour of the specification explains that line
                m = re.findall(r"^(?:/\\ )?l = (\d+)\s*$", text, re.M)
                if not m or not re.search(r"evaluat|Overflow|overflow|exception|domain|applied", text) or "OutOfMemory" in text or "StackOverflow" in text:
                    raise MachineryError("trace spec %s did not consume all lines:\n%s" % (module, text[-2500:]))
                k = int(m[-1]) - 1
                bad.setdefault(i0 + start + k, ["outside the domain of the specification: " + why(text)])
                start += k + 1
                given_up += 1
                if given_up >= 5:
                    break
            return bad, {"generated": gen, "distinct": dist}

        with ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(one, chunks))
        bad = {}
        for b, st in res:
            bad.update(b)
            self.states += st["distinct"]
            self.transitions += st["generated"]
        self.traces += n
        self.samples += [json.loads(json.dumps(records[k])) for k in {0, n // 2}]
        for i in sorted(bad):
            if i < n:
                self.rejects.append((name, records[i], bad[i]))
            else:
                self.canaries_rejected += 1
        self.canaries += len(can)

    # ------------------------------------------------------------- results
    def known(self):
        """entries of known_findings.txt for this property: 'known: property=Cxx match=<key> <text>'"""
        res = []
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r"known: property=(\S+) match=(\S+) (.*)", line.strip())
                if m and m.group(1) == self.pid:
                    res.append((m.group(2), m.group(3)))
        return res

    def finish(self, exhaustive=False):
        viol = []
        seen_known = {}
        for name, rec, clauses in self.rejects:
            k = None
            for key, text in self.known():
                if isinstance(rec, dict) and rec.get("id") == key:
                    k = (key, text)
            if k:
                seen_known[k] = 1
            else:
                viol.append((name, rec, clauses))
        for key, text in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, text))
        replay = ""
        if viol:
            d = os.path.join(EVID, "replay")
            os.makedirs(d, exist_ok=True)
            replay = os.path.join(d, "%s.json" % self.pid)
            with open(replay, "w") as fh:
                json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed,
                           "rejected": [{"stage": n, "clauses": c, "record": r} for n, r, c in viol[:50]],
                           "total_rejected": len(viol)}, fh, indent=1)
            for n, r, c in viol[:5]:
                print("rejected (%s) clauses=%s record=%s" % (n, c, json.dumps(r)[:600]))
        elif self.canaries and self.canaries_rejected != self.canaries:
            raise MachineryError("binding self-test failed: %d of %d corrupted traces rejected"
                                 % (self.canaries_rejected, self.canaries))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples[:4],
               "models": self.models, "corrupted_traces_rejected": self.canaries_rejected,
               "exhaustive": bool(exhaustive)}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(viol)}
        os.makedirs(os.path.join(EVID), exist_ok=True)
        with open(os.path.join(EVID, "%s.json" % self.pid), "w") as fh:
            json.dump(ev, fh, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        if viol:
            print("VIOLATION property=%s replay=%s" % (self.pid, replay))
            return 1
        print("OK property=%s states=%d traces=%d wall=%.1fs" % (self.pid, self.states, self.traces, ev["wall_s"]))
        return 0


def why(text):
    for line in text.splitlines():
        if re.search(r"attempted|Overflow|overflow|unexpected|evaluating", line):
            return line.strip()[:120]
    return "evaluation failed"


def pmap(fn, items, procs=NCPU, chunksize=None):
    """run fn over items in forked worker processes (nidn is imported in the workers)"""
    import multiprocessing as mp
    if not items:
        return []
    ctx = mp.get_context("fork")
    if chunksize is None:
        chunksize = max(1, len(items) // (procs * 4))
    with ctx.Pool(procs, initializer=quiet) as pool:
        return pool.map(fn, items, chunksize=chunksize)


def quiet():
    import warnings
    warnings.filterwarnings("ignore")
    try:
        import nidn
        from loguru import logger
        logger.remove()
    except Exception:
        pass
    try:
        import torch
        torch.set_num_threads(1)
    except Exception:
        pass


def outcome(fn, *a, **k):
    """(name of the exception class or 'ok', value)"""
    try:
        return "ok", fn(*a, **k)
    except BaseException as e:            # noqa
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        return type(e).__name__, None


def nidn_import():
    """import nidn from /repo's working tree and nothing else"""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import nidn
    assert os.path.realpath(nidn.__file__).startswith(os.path.realpath(REPO) + "/"), nidn.__file__
    quiet()
    return nidn


def main(pid, run):
    ck = Check(pid)
    try:
        ex = run(ck)
        rc = ck.finish(bool(ex))
    except MachineryError as e:
        sys.stderr.write("MACHINERY ERROR: %s\n" % e)
        rc = 2
    except Exception as e:
        tb = traceback.format_exc()
        sys.stderr.write(tb)
        rc = 2
        remote = type(e.__cause__).__name__ == "RemoteTraceback" and \
            isinstance(e, (RuntimeError, ValueError, TypeError, LookupError, ArithmeticError, AssertionError))
        # an exception out of the code under test, where the driver expects none, is an observation
        # the specification does not allow (also when a driver in a worker process cannot use the result);
        # anything else is an error of the machinery
        if remote or re.search(r'File "%s/nidn/' % re.escape(os.path.realpath(REPO)), tb) or re.search(r'File "%s/nidn/' % re.escape(REPO), tb):
            ck.rejects.append(("driver", {"traceback": tb[-3000:]}, ["raised"]))
            rc = ck.finish(False)
    finally:
        shutil.rmtree(ck.work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)
