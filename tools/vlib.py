"""What all checks share: building, running workers, evidence, known findings, verdicts."""
import contextlib, fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
WORKERS = 8


class Harness(Exception):
    """The check itself failed: neither held nor violated."""


# Cases of a quick run, and what makes a case count as distinct and non-trivial.
MONITOR = {
    "C01": (1000000, "a random schema of the zoo, a random value of it built in one of several ways (directly, or by a random history of mutators on a live state); distinct: schema and value, not the default value"),
    "C02": (40000, "a random state schema, a random history of mutators on it with replicas started at random points and replaying the log in random pieces; one evaluation per replica comparison; distinct: schema and log replayed so far, not empty"),
    "C03": (500000, "a random history of mutators interleaved with size queries of every kind and with encodings; one evaluation per comparison of an announced size with bytes written; distinct: schema and value"),
    "C04": (400000, "bytes of a random value or log entry compared with those of the independent encoder, and bytes of the independent encoder decoded; distinct: schema and bytes, not empty"),
    "C05": (400000, "hostile bytes (random, mutated, truncated, grammar-aware) decoded, merged and replayed into random schemas, and the value used afterwards; distinct: schema and bytes, not a valid encoding"),
    "C06": (500000, "a random encoding with unknown fields and foreign wire types injected at every level and known fields permuted, or one schema's bytes read by an evolved one; distinct: schema and bytes, at least one field injected, moved or unknown"),
    "C07": (400000, "random sequences of encodings merged one by one, concatenated and split, compared with the model of merging; distinct: schema and bytes merged"),
    "C08": (400000, "random histories of mutators, merges, decodes, replays and re-attachments; one evaluation per comparison of all addresses in the tree; distinct: schema and set of addresses"),
    "C09": (500000, "random histories of mutators mixed with reads, copies, encodings, callbacks with foreign changes and later use of removed values, the log compared with the entries predicted by the model; distinct: schema and entries"),
    "C10": (300000, "random histories in which a chosen entry is refused by the logger or a callback panics; one evaluation per step; distinct: schema, operation and fault"),
    "C12": (400000, "random logs mixing entries that fit and that do not, replayed on roots and non-roots, result and state compared with the model after each entry; distinct: schema, entry and verdict"),
    "C14": (500000, "pairs and triples of values equal or differing in one place, with different histories, addresses, loggers and caches; distinct: schema and both values"),
    "C17": (500000, "random histories of mutators and lookups; one evaluation per operation: return value and whole state compared with the sequential model; distinct: schema, state and operation"),
    "C18": (200000, "logs and snapshots of random states cut at every byte; one evaluation per cut; distinct: schema and torn bytes"),
    "C19": (300000, "values and logs read and written with random chunks, interruptions and a failure at every byte; one evaluation per run; distinct: schema, bytes and delivery"),
    "C20": (800000, "random interleavings of recording, reading, emptying, pausing, resuming and replacing on the shipped loggers; one evaluation per observation; distinct: schema and expected contents of the logger"),
    "C26": (60000, "random making, copying and dropping of handles of a runtime, entries and states made through them, pauses and refusals; one evaluation per step, all handles and loggers looked at; distinct: history of steps, deepest address, number of handles"),
    "C24": (300000, "random trees of values (with and without size caches, up to 24 levels deep) measured, encoded and decoded, and random histories on state trees with a replica; one evaluation per encoded value or change, which judges how often every leaf was measured, written, read and moved; distinct: bytes encoded or recorded"),
}


def known_findings():
    return json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.begin = time.time()
        self.thorough = tier == "thorough"
        self.evaluations = 0
        self.distinct = 0
        self.rule = ""
        self.samples = []
        self.counters = {}
        self.assumptions = []
        self.violations = []
        self.known = {}
        self.extra = {}
        self.level = "exploration"

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def violation(self, message, replay, slug=""):
        """Records a violation; `replay` is what is needed to see it again."""
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d%s.json" % (self.prop, self.seed, slug))
        with open(path, "w") as f:
            json.dump(dict(property=self.prop, seed=self.seed, tier=self.tier, message=message, **replay), f, indent=1)
            f.write("\n")
        self.violations.append((message, path))

    def finding(self, fid, what):
        """A finding seen on this tree: known, or a violation."""
        for k in known_findings():
            if k["id"] == fid and k["property"] == self.prop and k["status"] == "known":
                self.known[fid] = k["what"]
                return
        self.violation("%s: %s" % (fid, what), dict(finding=fid), "-" + fid)

    def finish(self):
        if not self.violations and (self.evaluations == 0 or self.distinct == 0):
            raise Harness("nothing was observed")
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=self.distinct, rule=self.rule,
                   samples=self.samples[:8] or ["(none)"], counters=dict(sorted(self.counters.items())))
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.begin, 1),
                  violations=len(self.violations))
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
            f.write("\n")
        print("%s: %d evaluations, %d distinct and non-trivial, %.1f s" % (self.prop, self.evaluations, self.distinct, ev["wall_s"]))
        for fid, what in sorted(self.known.items()):
            print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, fid, what))
        for message, path in self.violations:
            print(message[:3000])
            print("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(path, VERIF)))
        return 1 if self.violations else 0


@contextlib.contextmanager
def locked(name):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, name + ".lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


def env(**more):
    e = dict(os.environ)
    for k in ("RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "RUSTC", "RUSTFLAGS", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    e.update(more)
    return e


def sh(cmd, timeout=None, cwd=None, environ=None):
    """Runs a command in its own process group; (code or None after a timeout, output)."""
    p = subprocess.Popen(cmd, cwd=cwd, env=environ or env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out.decode("utf8", "replace")


def nrand(tier):
    return 24 if tier == "thorough" else 12


# What was left out of the zoo because it does not compile.
UNBUILT = []


def blamed(src, out):
    """The schemas in which the errors of a build are."""
    at, names = {}, set()
    name = ""
    for i, line in enumerate(open(src).read().split("\n"), 1):
        if line.startswith("//@"):
            name = line[3:].strip()
        at[i] = name
    for error in re.split(r"\n(?=error)", out):
        m = re.search(r"--> src/zoo_gen\.rs:(\d+)", error)
        if error.startswith("error") and m:
            names.add(at[int(m.group(1))])
    return names - {""}


def build_monitor(zseed, tier, release=False):
    """Generates the zoo, builds the monitor from /repo's working tree and returns the path of the binary."""
    with locked("monitor"):
        h = os.path.join(VERIF, "harness")
        src = os.path.join(h, "src/zoo_gen.rs")
        without = set()
        while True:
            code, out = sh([sys.executable, os.path.join(VERIF, "tools/zoo.py"), str(zseed), str(nrand(tier)), src] + sorted(without))
            if code != 0:
                raise Harness("zoo: " + out[-2000:])
            cmd = ["cargo", "build", "--offline", "--quiet", "--bin", "monitor"] + (["--release"] if release else [])
            code, out = sh(cmd, timeout=700, cwd=h, environ=env(CARGO_TARGET_DIR=os.path.join(BUILD, "target"), RUSTFLAGS="-Awarnings"))
            if code == 0:
                break
            bad = blamed(src, out) - without
            if not bad or len(without) > 20:
                raise Harness("the monitor does not build:\n" + out[-6000:])
            # Some schemas do not compile any more. The others are monitored; without a violation there is no verdict.
            without |= bad
            UNBUILT.append("without %s: %s" % (", ".join(sorted(without)), out[-3000:]))
        kind = "release" if release else "debug"
        built = os.path.join(BUILD, "target", kind, "monitor")
        os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
        digest = hashlib.sha256(open(built, "rb").read()).hexdigest()[:16]
        path = os.path.join(BUILD, "bin", "monitor-" + digest)
        if not os.path.exists(path):
            shutil.copy2(built, path + ".tmp%d" % os.getpid())
            os.rename(path + ".tmp%d" % os.getpid(), path)
        return path


def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_workers(run, binary, prop, seed, cases, cap):
    """Runs the workers of one property; merges their statistics into `run` and returns failures."""
    d = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(d, exist_ok=True)
    base = [binary, prop, "--seed", str(seed), "--tier", run.tier]
    procs = []
    for w in range(WORKERS):
        out = os.path.join(d, "w%d" % w)
        procs.append((w, out, subprocess.Popen(
            base + ["--worker", str(w), "--of", str(WORKERS), "--cases", str(cases), "--cap", str(cap), "--out", out],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env(), preexec_fn=limit)))
    failures, broken, fps = [], [], []
    deadline = time.time() + cap + 200
    for w, out, p in procs:
        try:
            text = p.communicate(timeout=max(1, deadline - time.time()))[0].decode("utf8", "replace")
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            broken.append("worker %d did not end" % w)
            continue
        if p.returncode in (0, 1, 2) and os.path.exists(out):
            s = json.load(open(out))
            run.evaluations += s["evaluations"]
            run.count("cases", s["cases"])
            for k, n in s["counters"].items():
                if k.startswith("deepest"):
                    run.counters[k] = max(run.counters.get(k, 0), n)
                else:
                    run.count(k, n)
            for k, v in s["known"].items():
                run.finding(k, v)
            run.samples += s["samples"][:2]
            fps.append(out + ".fp")
            if p.returncode == 2:
                broken.append(s["failure"]["message"])
            elif p.returncode == 1:
                failures.append(dict(s["failure"]))
        else:
            # It crashed or hung: run the case alone, to be sure that it is this case.
            try:
                case = int(open(out + ".case").read())
            except (OSError, ValueError):
                broken.append("worker %d: exit %s: %s" % (w, p.returncode, text[-1000:]))
                continue
            code, text2 = sh(base + ["--case", str(case)], timeout=400)
            if code == 97:
                failures.append(dict(case=case, message="the case hangs: " + text2[-300:], trace=[]))
            elif code is not None and code < 0 and code != -9:
                failures.append(dict(case=case, message="the process dies of signal %d: %s" % (-code, text2[-500:]), trace=[]))
            elif code == 1:
                failures.append(dict(case=case, message=text2[-3000:], trace=[]))
            else:
                broken.append("worker %d: exit %s in case %d, alone %s: %s" % (w, p.returncode, case, code, (text + text2)[-1000:]))
    fps = [f for f in fps if os.path.exists(f)]
    if fps:
        code, text = sh([binary, "union"] + fps)
        if code != 0:
            raise Harness("union: " + text)
        run.distinct += int(text.split()[-1])
    shutil.rmtree(d, ignore_errors=True)
    failures.sort(key=lambda f: f["case"])
    return failures, broken


def probe(run, binary, fid, crash=False):
    """Shows whether a known finding is there; `crash`: it is there if the process dies of a signal."""
    code, text = sh([binary, "probe", fid], timeout=120)
    if crash and code is not None and code < 0 and code != -9:
        there = True
    elif code == 0 and "PROBE %s present" % fid in text:
        there = True
    elif code == 0 and "PROBE %s absent" % fid in text:
        there = False
    else:
        raise Harness("probe %s: exit %s: %s" % (fid, code, text[-500:]))
    if there:
        run.finding(fid, "the probe shows it")
    else:
        print("%s is not there (any more)" % fid)


PROBES = {"C01": [("F13", False)], "C05": [("F14", True)], "C10": [("F15", False)]}


def monitor(run):
    cases, run.rule = MONITOR[run.prop]
    run.assumptions = [
        "the reference model (harness/src/model.rs) states the intended semantics",
        "schemas are those of the generated zoo: a fixed part with every feature and a random part that depends on the seed",
    ]
    zoos = [(run.seed, run.seed)]
    cap = 150
    if run.thorough:
        # Several zoos, and deeper histories (the tier is passed on).
        zoos = [(run.seed * 1000 + k, run.seed * 1000 + k) for k in range(6)]
        cases *= 6
        cap = 400
    failures, broken = [], []
    for i, (zseed, seed) in enumerate(zoos):
        binary = build_monitor(zseed, run.tier, release=run.thorough and i % 3 == 2)
        if i == 0:
            for fid, crash in PROBES.get(run.prop, ()):
                probe(run, binary, fid, crash)
        failures, broken = run_workers(run, binary, run.prop, seed, cases, cap)
        run.count("zoos")
        if failures or broken:
            break
    if failures:
        f = failures[0]
        run.violation("case %d: %s" % (f["case"], f["message"]),
                      dict(zoo_seed=zseed, case_seed=seed, case=f["case"], trace=f["trace"], release=run.thorough and i % 3 == 2,
                           rerun="VERIF_TIER=%s python3 run_check.py %s --replay THIS_FILE" % (run.tier, run.prop)))
    elif broken:
        raise Harness("; ".join(broken)[:4000])
    elif UNBUILT and not run.violations:
        raise Harness("not all schemas compile, " + UNBUILT[-1])


def replay(path):
    r = json.load(open(path))
    if r["property"] not in MONITOR:
        import importlib
        m = importlib.import_module(r["property"].lower())
        if hasattr(m, "replay"):
            code = m.replay(r)
            if code:
                print("VIOLATION property=%s replay=%s" % (r["property"], os.path.relpath(path, VERIF)))
            return code
        run = Run(r["property"], r["tier"], r["seed"])
        m.check(run)
        return run.finish()
    if "case" not in r:
        print(json.dumps(r, indent=1))
        return 0
    binary = build_monitor(r["zoo_seed"], r["tier"], r.get("release", False))
    code, out = sh([binary, r["property"], "--seed", str(r["case_seed"]), "--tier", r["tier"], "--case", str(r["case"]), "--verbose"], timeout=400)
    print(out)
    if code == 0:
        return 0
    if code == 1 or code == 97 or (code is not None and code < 0 and code != -9):
        print("VIOLATION property=%s replay=%s" % (r["property"], os.path.relpath(path, VERIF)))
        return 1
    return 2
