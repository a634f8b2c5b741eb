"""Bounded exhaustive explorer: shared driver of all checks.

  python3 /verif/lib/mc.py <property> [quick|thorough] [--only N | --replay FILE]

The master builds the package from /repo's working tree into a scratch folder, starts N worker processes, merges
what they covered into /verif/evidence/<property>.json and prints VIOLATION / KNOWN-FINDING lines.  A check module
(checks/<id>.py) defines  explore(X):  it enumerates its *finite* space of cases in a fixed order with
X.each(cases, fn); every worker walks the same enumeration and executes the cases whose number is its own
modulo the number of workers, so the union is the complete space.
"""
import os, sys, json, time, hashlib, subprocess, shutil, traceback, tempfile, signal

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python"
CASE_LIMIT = 300.0       # one case (normally milliseconds) that runs longer than this does not terminate


class Violation(Exception):
    pass


class HarnessError(Exception):
    pass


class X:
    """What a check module sees (one per worker)."""

    def __init__(self, prop, tier, seed, shard, nshards, scratch, pkg, progress=None, only=None, budget=600.0):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.shard, self.nshards, self.scratch, self.pkg = shard, nshards, scratch, pkg
        self.quick = tier == "quick"
        self.progress = progress
        self.only = only
        self.n_cases = 0           # cases enumerated (all workers)
        self.n_run = 0             # cases executed by this worker
        self.transitions = 0
        self.validated = 0
        self.skipped = 0
        self.counts = {}
        self.state_hashes = set()
        self.outcomes = set()
        self.samples = []
        self.violations = []
        self.known = {}
        self.bounds = {}
        self.capped = False
        self.t0 = time.time()
        self.budget = budget
        self.assumptions = []

    # -- enumeration ---------------------------------------------------------------------------
    def each(self, cases, fn, group=None):
        """Run fn(desc) on every case of this worker's share.  desc must be JSON-serialisable."""
        g = os.environ.get('VERIF_GROUP') if os.environ.get('VERIF_DEBUG') else None       # development: one group only
        for desc in cases if not g or g == (group or fn.__name__) else ():
            k = self.n_cases
            self.n_cases += 1
            if self.only is not None:
                if k != self.only:
                    continue
            elif k % self.nshards != self.shard:
                continue
            if self.capped:
                continue
            if time.time() - self.t0 > self.budget:
                self.capped = True
                continue
            self._run(k, desc, fn, group)
            if len(self.violations) >= 3:
                return

    def _run(self, k, desc, fn, group):
        if self.progress:
            self.progress.seek(0)
            self.progress.write((json.dumps({"case": k, "group": group or fn.__name__, "desc": desc}, default=str) + "\n").ljust(4000))
            self.progress.flush()
            os.utime(self.progress.fileno())
        self.n_run += 1
        cid = self.counts.setdefault("cases_" + (group or fn.__name__), 0)
        self.counts["cases_" + (group or fn.__name__)] = cid + 1
        try:
            fn(desc)
        except HarnessError:
            raise
        except Violation as e:
            self.record(k, group or fn.__name__, desc, str(e))
        except Exception as e:
            self.record(k, group or fn.__name__, desc, "unexpected %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-3000:]))
        if len(self.samples) < 3 and self.n_run in (1, 7, 40):
            self.samples.append({"case": k, "group": group or fn.__name__, "desc": desc})

    def record(self, k, group, desc, detail):
        self.violations.append({"case": k, "group": group, "desc": desc, "detail": detail})

    # -- accounting ----------------------------------------------------------------------------
    def state(self, *key):
        self.state_hashes.add(hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest())

    def outcome(self, *key):
        self.outcomes.add(hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest())

    def step(self, n=1):
        self.transitions += n

    def ok(self, n=1):
        """n executions of the implementation compared with the reference."""
        self.validated += n

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def known_finding(self, key, text):
        self.known[key] = text

    def result(self):
        return {k: getattr(self, k) for k in ("n_cases", "n_run", "transitions", "validated", "skipped", "counts", "samples",
                                              "violations", "known", "bounds", "capped", "assumptions")} | {
            "states": sorted(self.state_hashes), "outcomes": sorted(self.outcomes)}


def load_check(prop):
    import importlib.util
    fn = os.path.join(VERIF, "checks", prop.lower() + ".py")
    spec = importlib.util.spec_from_file_location("check_" + prop, fn)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


# ---------------------------------------------------------------------------------------------- worker
def worker(a):
    prop, tier, seed, shard, nshards, scratch, pkg, out, only, budget = a[:10]
    real = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)                       # the library prints a lot, also from C
    sys.stdout = os.fdopen(os.dup(null), "w")
    if not os.environ.get("VERIF_WARN"):
        import warnings
        warnings.simplefilter("ignore")
        os.environ["PYTHONWARNINGS"] = "ignore"
    w = os.path.join(scratch, "w%s" % shard)
    os.makedirs(w, exist_ok=True)
    os.chdir(w)
    prog = open(out + ".progress", "w")
    x = X(prop, tier, int(seed), int(shard), int(nshards), w, pkg, prog, None if only == "-" else int(only), float(budget))
    m = load_check(prop)
    try:
        m.explore(x)
    except Exception:
        with open(out + ".err", "w") as f:
            f.write(traceback.format_exc())
        os._exit(3)
    with open(out + ".tmp", "w") as f:
        json.dump(x.result(), f, default=str)
    os.replace(out + ".tmp", out)
    os.close(real)
    os._exit(0)


# ---------------------------------------------------------------------------------------------- master
def worker_env(pkg, extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("OMP_", "OMPI_", "PMIX", "PYTHON"))}
    e.update({"PATH": "/opt/venv/bin:/usr/local/bin:/usr/bin:/bin", "PYTHONPATH": pkg, "PYTHONDONTWRITEBYTECODE": "1",
              "MPLBACKEND": "Agg", "OMP_NUM_THREADS": "2", "OPENBLAS_NUM_THREADS": "1", "PYTHONHASHSEED": "0",
              "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1", "OMP_WAIT_POLICY": "passive",
              "OMPI_MCA_btl": "self,vader,tcp", "OMPI_MCA_pml": "ob1"})
    if extra:
        e.update(extra)
    return e


def get_build(meta, scratch):
    """Build /repo's current tree (cached only when VERIF_DEV_CACHE is set, by content)."""
    import buildrepo
    extra = tuple(meta.get("cflags", ()))
    opt = meta.get("opt")
    only = meta.get("only")
    cache = os.environ.get("VERIF_DEV_CACHE")
    if cache:
        shim = open(VERIF + "/shim/gompshim.c").read() if meta.get("shim") else None
        h = hashlib.sha256(repr((extra, opt, only, shim)).encode())
        root = os.path.join(buildrepo.REPO, "cosmic_profiles")
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            if "for_docs" in d or "tests" in d or "__pycache__" in d:
                continue
            for f in sorted(fs):
                if f.endswith((".py", ".pyx", ".pxd", ".pxi")):
                    h.update((os.path.join(d, f)).encode() + open(os.path.join(d, f), "rb").read())
        dst = os.path.join(cache, h.hexdigest()[:20])
        if os.path.exists(dst + "/.done"):
            return dst
        shutil.rmtree(dst, ignore_errors=True)
        buildrepo.build(dst, extra, meta.get("ldflags", ()), only, opt, shim=bool(meta.get("shim")))
        open(dst + "/.done", "w").close()
        return dst
    dst = os.path.join(scratch, "pkg")
    buildrepo.build(dst, extra, meta.get("ldflags", ()), only, opt, shim=bool(meta.get("shim")))
    return dst


def master(prop, tier, only=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    outdir = os.path.join(VERIF, "out", prop)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop, dir="/tmp")
    procs = []

    def cleanup(*_):
        for p in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except Exception:
                pass
        shutil.rmtree(scratch, ignore_errors=True)
    try:
        m = load_check(prop)
        meta = m.META
        pkg = get_build(meta, scratch)
        tb = time.time() - t0
        n = 1 if only is not None else int(os.environ.get("VERIF_WORKERS", meta.get("workers", 8)))
        budget = meta.get("budget", 600.0) if tier == "quick" else meta.get("budget_thorough", 3600.0)
        res = []
        if hasattr(m, "prepare"):
            m.prepare(scratch, pkg)
        env = worker_env(pkg, meta.get("env", lambda s: {})(scratch))
        for i in range(n):
            out = os.path.join(scratch, "r%d.json" % i)
            err = open(out + ".stderr", "w")
            p = subprocess.Popen([PY, os.path.join(HERE, "mc.py"), "--worker", prop, tier, str(seed), str(i), str(n), scratch, pkg, out,
                                  "-" if only is None else str(only), str(budget)], env=env, stdout=subprocess.DEVNULL, stderr=err,
                                 stdin=subprocess.DEVNULL, start_new_session=True)
            procs.append(p)
            res.append(out)
        viol, merged, errs = [], None, []
        pending = dict(enumerate(procs))
        hard = meta.get("hard", 820.0) if tier == "quick" else 6 * 3600.0
        while pending:
            time.sleep(0.1)
            for i, p in list(pending.items()):
                if i not in pending:
                    continue
                rc = p.poll()
                out = res[i]
                if rc is None:
                    try:
                        st = os.stat(out + ".progress")
                        stuck = time.time() - st.st_mtime > CASE_LIMIT and st.st_size > 0
                    except OSError:
                        stuck = False
                    if stuck or time.time() - t0 > hard:
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                        if stuck:
                            cur = json.loads(open(out + ".progress").read() or "{}")
                            viol.append({"case": cur.get("case"), "group": cur.get("group"), "desc": cur.get("desc"),
                                         "detail": "the call did not return within %g s" % CASE_LIMIT})
                        else:
                            errs.append("worker %d ran out of time" % i)
                        del pending[i]
                    continue
                del pending[i]
                if os.path.exists(out):
                    r = json.load(open(out))
                    viol += r["violations"]
                    merged = merge(merged, r)
                    if r["violations"]:        # one is enough
                        for j, q in list(pending.items()):
                            os.killpg(q.pid, signal.SIGKILL)
                            q.wait()
                            del pending[j]
                else:
                    tail = open(out + ".stderr").read()[-3000:]
                    if rc == 3 and os.path.exists(out + ".err"):
                        errs.append("worker %d: %s" % (i, open(out + ".err").read()))
                    else:
                        try:
                            cur = json.loads(open(out + ".progress").read() or "{}")
                        except Exception:
                            cur = {}
                        if cur:
                            viol.append({"case": cur.get("case"), "group": cur.get("group"), "desc": cur.get("desc"),
                                         "detail": "the process died (exit status %s) while running this case\n%s" % (rc, tail)})
                        else:
                            errs.append("worker %d died (%s) before its first case\n%s" % (i, rc, tail))
        if merged is None:
            merged = merge(None, X(prop, tier, seed, 0, 1, "", "").result())
        if only is None and os.environ.get('VERIF_DEBUG'):
            print(json.dumps(viol, indent=1, default=str)[:6000])
        viol.sort(key=lambda v: (v["case"] is None, v["case"]))
        known_lines = known_findings(prop)
        real = []
        for v in viol:
            real.append(v)
        for key, text in sorted(merged["known"].items()):
            if key in known_lines:
                print("KNOWN-FINDING: property=%s %s" % (prop, known_lines[key]))
            else:
                real.append({"case": None, "group": "finding", "desc": key, "detail": text})
        replay = None
        for j, v in enumerate(real[:5]):
            fn = os.path.join(outdir, "replay_%d.json" % j)
            v = dict(v, property=prop, tier=tier, seed=seed, how="python3 /verif/lib/mc.py %s %s --only %s" % (prop, tier, v["case"]))
            json.dump(v, open(fn, "w"), indent=1, default=str)
            replay = replay or fn
        cov = {
            "states": len(merged["states"]), "transitions": merged["transitions"],
            "traces_validated_against_impl": merged["validated"],
            "cases_enumerated": merged["n_cases"], "cases_executed": merged["n_run"],
            "distinct_outcomes": len(merged["outcomes"]), "comparisons_skipped_near_a_tie": merged["skipped"],
            "counts": merged["counts"], "bounds": merged["bounds"], "samples": merged["samples"][:6],
            "exhaustive": not merged["capped"] and not errs and not real and merged["n_run"] == merged["n_cases"],
            "build_s": round(tb, 1),
        }
        ev = {"property": prop, "tier": tier, "seed": seed, "level": meta.get("level", "model_checking"), "coverage": cov,
              "assumptions": meta.get("assumptions", []) + sorted(set(merged["assumptions"])), "wall_s": round(time.time() - t0, 2),
              "violations": len(real)}
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1, default=str)
        if real:
            for v in real[:3]:
                print("  case %s (%s): %s" % (v["case"], v["group"], str(v["detail"])[:600]))
            print("VIOLATION property=%s replay=%s" % (prop, replay))
            return 1
        if errs:
            print("ERROR " + "\n".join(errs)[:4000])
            return 2
        if only is None and merged["n_run"] != merged["n_cases"] and not merged["capped"]:
            print("ERROR %d cases enumerated, %d executed" % (merged["n_cases"], merged["n_run"]))
            return 2
        print("OK property=%s tier=%s states=%d transitions=%d validated=%d cases=%d outcomes=%d skipped=%d%s %.1fs (build %.1fs)" % (
            prop, tier, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], cov["cases_executed"],
            cov["distinct_outcomes"], cov["comparisons_skipped_near_a_tie"], " CAPPED" if merged["capped"] else "", time.time() - t0, tb))
        return 0
    finally:
        cleanup()


def merge(a, r):
    if a is None:
        a = {"n_cases": 0, "n_run": 0, "transitions": 0, "validated": 0, "skipped": 0, "counts": {}, "samples": [], "known": {},
             "bounds": {}, "capped": False, "assumptions": [], "states": set(), "outcomes": set()}
    for k in ("n_run", "transitions", "validated", "skipped"):
        a[k] += r[k]
    a["n_cases"] = max(a["n_cases"], r["n_cases"])
    for k, v in r["counts"].items():
        a["counts"][k] = a["counts"].get(k, 0) + v
    a["samples"] += r["samples"]
    a["known"].update(r["known"])
    a["bounds"].update(r["bounds"])
    a["capped"] |= r["capped"]
    a["assumptions"] += r["assumptions"]
    a["states"] |= set(r["states"])
    a["outcomes"] |= set(r["outcomes"])
    return a


def known_findings(prop):
    """known_findings.jsonl: {"property","key","text"} = listed finding; {"fixed": ...} suppresses nothing."""
    out = {}
    fn = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(fn):
        for l in open(fn):
            l = l.strip()
            if l and not l.startswith(("#", "fixed:")):
                d = json.loads(l)
                if d.get("property") == prop and "key" in d:
                    out[d["key"]] = d["text"]
    return out


if __name__ == "__main__":
    if os.path.realpath(sys.prefix) != "/opt/venv" and not sys.executable.startswith("/opt/venv/"):
        os.execv(PY, [PY] + sys.argv)
    sys.dont_write_bytecode = True
    sys.modules["mc"] = sys.modules["__main__"]
    a = sys.argv[1:]
    if a and a[0] == "--worker":
        worker(a[1:])
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    pos = []
    i = 0
    while i < len(a):
        if a[i] == "--only":
            only = int(a[i + 1]); i += 1
        elif a[i] == "--replay":
            d = json.load(open(a[i + 1])); i += 1
            pos = [d["property"], d["tier"]]; only = d["case"]
        else:
            pos.append(a[i])
        i += 1
    if len(pos) > 1:
        tier = pos[1]
    try:
        rc = master(pos[0], tier, only)
    except RuntimeError as e:
        print("ERROR %s" % e)
        rc = 2
    sys.exit(rc)
