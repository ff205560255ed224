"""The checks: TLC on the specification, conformance of the library to it.  See DESIGN.md."""
import concurrent.futures as cf
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = "/repo"
SPEC = os.path.join(ROOT, "spec")
WORK = os.path.join(ROOT, ".work")
REPLAYS = os.path.join(WORK, "replays")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = 8


class Trouble(Exception):
    """The check itself could not be carried out: no verdict."""


class Enough(Exception):
    """The verdict is known: violations were found, and there is no need for more of them."""


ENOUGH = 3          # violations after which a check stops looking
over = threading.Event()
running = set()
running_lock = threading.Lock()


def stop_all():
    over.set()
    with running_lock:
        for p in running:
            try:
                p.kill()
            except OSError:
                pass


def call(cmd, timeout, **kw):
    """subprocess.run that can be cut short by stop_all."""
    with running_lock:
        if over.is_set():
            raise Enough()
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)
        running.add(p)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise
    finally:
        with running_lock:
            running.discard(p)
    if over.is_set():
        raise Enough()
    return subprocess.CompletedProcess(cmd, p.returncode, out, err)


def log(*a):
    print("#", *a, file=sys.stderr, flush=True)


# --------------------------------------------------------------------------
# Building the library under test

VARIANTS = {  # name: (profile, features, binaries)
    "dev":       ("dev", "std", ["harness"]),
    "rel":       ("release", "std", ["harness"]),
    "dev-none":  ("dev", "", ["harness"]),
    "rel-none":  ("release", "", ["harness"]),
    "dev-logs":  ("dev", "std,logs", ["harness"]),
    "rel-logs":  ("release", "std,logs", ["harness"]),
    "dev-serde": ("dev", "std,serde", ["harness"]),
    "rel-serde": ("release", "std,serde", ["harness"]),
    "rel-every": ("release", "std,logs,serde,diesel", ["harness"]),
    "dev-nopan": ("dev", "std,no-panic", ["harness"]),
    "opt-every": ("opt", "std,logs,serde,diesel", ["harness"]),
    "dev-db":    ("dev", "std,diesel", ["db"]),
    "rel-db":    ("release", "std,diesel", ["db"]),
    "dev-misc":  ("dev", "std", ["errors"]),
    "rel-misc":  ("release", "std", ["errors"]),
    "dev-caps":  ("dev", "std", ["caps"]),
    "rel-caps":  ("release", "std", ["caps"]),
    "all":       ("all", "std,allcaps", ["harness"]),
    "rel-all":   ("release", "std,allcaps", ["harness"]),
    "dev-all":   ("dev", "std,allcaps", ["harness"]),
}


def source_stamp():
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml")]
    for base in (os.path.join(REPO, "src"), os.path.join(ROOT, "harness")):
        for d, dirs, names in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x != "target")
            files += [os.path.join(d, n) for n in sorted(names)]
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as g:
            h.update(g.read() + b"\0")
    return h.hexdigest()


def build(variant, ok_to_fail=False):
    """Builds the harness for a variant from /repo's current tree; returns the directory of its binaries."""
    profile, features, bins = VARIANTS[variant]
    target = os.path.join(WORK, "t-" + variant)
    os.makedirs(target, exist_ok=True)
    stampfile = os.path.join(target, "stamp")
    stamp = source_stamp()
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    env.pop("RUSTFLAGS", None)
    manifest = os.path.join(ROOT, "harness", "Cargo.toml")
    try:
        old = open(stampfile).read()
    except OSError:
        old = None
    if old != stamp:  # never trust modification times
        try:
            os.remove(stampfile)
        except OSError:
            pass
        if old is not None:
            subprocess.run(["cargo", "clean", "--offline", "--manifest-path", manifest, "-p", "arraystring", "-p", "harness"]
                           + ["--profile", profile], env=env, capture_output=True)
    cmd = ["cargo", "build", "--offline", "--manifest-path", manifest, "--no-default-features", "--features", features]
    for b in bins:
        cmd += ["--bin", b]
    cmd += ["--profile", profile]
    t = time.time()
    r = subprocess.run(cmd, env=env, capture_output=True, text=True, errors="replace")
    out = os.path.join(target, "debug" if profile == "dev" else profile)
    if r.returncode != 0:
        if ok_to_fail:
            return None
        raise Trouble("the harness does not build (%s):\n%s" % (variant, r.stderr[-3000:]))
    open(stampfile, "w").write(stamp)
    log("built %s in %.1f s" % (variant, time.time() - t))
    return out


# --------------------------------------------------------------------------
# Running things

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Ran:
    def __init__(self, code, out, err):
        self.code, self.out, self.err = code, out, err

    @property
    def died(self):
        """crash or hang of the code under test, or None"""
        if self.code == 97:
            return "hang"
        return "crash" if self.code < 0 or self.code in (132, 134, 135, 136, 137, 139) else None


def run(cmd, timeout=600):
    try:
        p = call(cmd, timeout, preexec_fn=limits)
    except subprocess.TimeoutExpired:
        raise Trouble("no end after %d s: %s" % (timeout, " ".join(cmd)))
    r = Ran(p.returncode, p.stdout, p.stderr)
    if r.code != 0 and not r.died:
        raise Trouble("%s\nexit %d: %s" % (" ".join(cmd), r.code, r.err[-2000:]))
    return r


class Tlc:
    def __init__(self, out, wall):
        self.out, self.wall = out, wall
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        self.bad = [int(x) for x in re.findall(r'<<"BAD", (\d+)>>', out)]
        c = re.findall(r'<<"CONSUMED", (\d+), (\d+)>>', out)
        self.consumed = (int(c[-1][0]), int(c[-1][1])) if c else None
        self.clean = "No error has been found" in out


def tlc(module, workdir, env, workers=1, heap="3g", timeout=1500):
    meta = os.path.join(workdir, "meta-%s-%d" % (module, threading.get_ident() ^ time.monotonic_ns()))
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % max(2, workers // 2), "-Xmx" + heap, "-Xss16m", "-Djava.io.tmpdir=" + workdir, "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE",
           "-workers", str(workers), "-metadir", meta, "-config", module + ".cfg", module + ".tla"]
    t = time.time()
    e = {k: v for k, v in os.environ.items() if k not in ("PROP", "SIZE", "OUT", "TRACE", "TRACE2", "_JAVA_OPTIONS", "JAVA_TOOL_OPTIONS")}
    e.update({k: str(v) for k, v in env.items()})
    try:
        p = call(cmd, timeout, cwd=SPEC, env=e)
    except subprocess.TimeoutExpired:
        raise Trouble("TLC did not finish %s in %d s" % (module, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = Tlc(p.stdout, time.time() - t)
    r.code = p.returncode
    return r


def lines_of(path):
    with open(path) as f:
        return f.read().splitlines()


def write_lines(path, lines):
    with open(path, "w") as f:
        for x in lines:
            f.write(x + "\n")


# --------------------------------------------------------------------------
# One run of one check

class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.dir = os.path.join(WORK, "run-%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        os.makedirs(REPLAYS, exist_ok=True)
        self.pool = cf.ThreadPoolExecutor(CPUS)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.more = {}
        self.notes = []
        self.violations = []      # (signature, replay path, text)
        self.known = load_known(prop)
        self.known_hit = set()
        self.lock = threading.Lock()

    @property
    def quick(self):
        return self.tier == "quick"

    def add(self, key, n):
        with self.lock:
            self.more[key] = self.more.get(key, 0) + n

    def note(self, text):
        with self.lock:
            if text not in self.notes:
                self.notes.append(text)

    def path(self, name):
        return os.path.join(self.dir, name)

    # ---- the specification ------------------------------------------------
    def laws(self, module, env, heap="6g", workers=4):
        """Model checks the laws of the specification itself."""
        r = tlc(module, self.dir, env, workers=workers, heap=heap)
        if not r.clean:
            raise Trouble("the specification does not satisfy its laws (%s):\n%s" % (module, r.out[-3000:]))
        with self.lock:
            self.cov["states"] += r.distinct
            self.cov["transitions"] += r.generated
        self.add("model_wall_s", round(r.wall, 1))
        return r

    def arithmetic(self):
        """Checks the index arithmetic symbolically, for every capacity and every machine word."""
        out = self.path("apalache")
        t = time.time()
        try:
            p = call(["apalache-mc", "check", "--length=0", "--inv=Inv", "--out-dir=" + out, os.path.join(SPEC, "Arith.tla")], 600, cwd=self.dir,
                     env=dict(os.environ, JVM_ARGS="-Xmx2g -Djava.io.tmpdir=" + self.dir))
        except subprocess.TimeoutExpired:
            raise Trouble("Apalache did not finish Arith")
        if p.returncode != 0 or "The outcome is: NoError" not in p.stdout:
            raise Trouble("the index arithmetic is wrong in the specification (Arith):\n%s" % p.stdout[-3000:])
        self.add("arithmetic_wall_s", round(time.time() - t, 1))

    def buffers(self, size):
        """Model checks the buffer against the reference semantics; returns a shortest history to every reachable buffer."""
        out = self.path("setups.nd")
        every = []
        for module, sz, key in (("Buffer", size, "buffers"), ("DrainRuns", "big", "drain_states")):
            r = self.laws(module, dict(SIZE=sz))
            hs = [json.loads(x)[6:] for x in r.out.splitlines() if x.startswith('"SETUP ')]
            if len(hs) != r.distinct:
                raise Trouble("%d histories for %d states of %s" % (len(hs), r.distinct, module))
            self.add(key, len(hs))
            every += sorted(hs)
        write_lines(out, every)
        return out

    def generate(self, size, prop=None):
        """Enumerates the calls of the property's family with the outcomes the specification allows."""
        out = self.path("cases")
        r = tlc("Gen", self.dir, dict(PROP=prop or self.prop, SIZE=size, OUT=out), workers=4, heap="10g")
        if not r.clean:
            raise Trouble("case generation failed:\n" + r.out[-3000:])
        self.add("generated_files", len([f for f in os.listdir(self.dir) if f.startswith("cases.")]))
        return out

    # ---- judging ----------------------------------------------------------
    def judge(self, trace, module="Judge", env=None, describe="", kind="trace", variant=None, starts=("init",), extra=None):
        """Replays a recorded trace on the specification; every line the specification rejects is a violation."""
        n = sum(1 for _ in open(trace))
        if n == 0:
            return 0
        e = dict(PROP=self.prop, TRACE=trace)
        e.update(env or {})
        r = tlc(module, self.dir, e)
        if r.consumed is None or r.consumed[0] != r.consumed[1] or not (r.clean or module == "Errors"):
            raise Trouble("trace validation (%s, %s) did not run to the end:\n%s" % (module, describe, r.out[-3000:]))
        with self.lock:
            self.more["events_validated"] = self.more.get("events_validated", 0) + r.consumed[1]
        if r.bad:
            ls = lines_of(trace)
            seen = set()
            for b in r.bad:
                s = b
                while s > 1 and '"op":"init"' not in ls[s - 1]:
                    s -= 1
                if s in seen:
                    continue
                seen.add(s)
                self.violation(ls[s - 1:b] if kind in ("trace", "db", "pair") else [ls[b - 1]], describe, kind, variant, extra, (s, b))
                if len(seen) >= 50 or over.is_set():
                    break
        return n

    def violation(self, lines, describe, kind, variant, extra=None, span=None):
        try:
            last = json.loads(lines[-1])
        except ValueError:
            last = {"op": "?"}
        for i, k in enumerate(self.known):
            if all(last.get(f) == v for f, v in k["match"].items()):
                with self.lock:
                    self.known_hit.add(i)
                return
        rec = dict(property=self.prop, kind=kind, variant=variant, how=describe, lines=lines)
        if extra:
            rec.update(extra(span))
        body = json.dumps(rec, indent=1)
        name = "%s-%s.json" % (self.prop, hashlib.sha256(body.encode()).hexdigest()[:12])
        path = os.path.join(REPLAYS, name)
        with open(path, "w") as f:
            f.write(body + "\n")
        with self.lock:
            self.violations.append((path, describe, last))
            enough = len(self.violations) >= ENOUGH
        if enough:
            stop_all()

    # ---- recording --------------------------------------------------------
    def record(self, variant, bindir, seed, count, steps=40, frm=0, extra=(), tag="", exe="harness"):
        """Records random histories; one that kills or hangs the process is kept as far as it got. Returns trace paths."""
        out = []
        end = frm + count
        tries = 0
        while frm < end:
            name = "rec-%s-%s-%d-%d" % (variant, tag, seed, frm)
            trace, journal = self.path(name + ".nd"), self.path(name + ".journal")
            r = run([os.path.join(bindir, "harness"), "record", "--seed", str(seed), "--from", str(frm), "--count", str(end - frm), "--steps", str(steps),
                     "--focus", self.prop, "--out", trace, "--journal", journal, *extra], timeout=600)
            if not r.died:
                out.append(trace)
                self.tally(r.out)
                break
            tries += 1
            self.note("%s: a call did not return (%s) in build %s" % (self.prop, r.died, variant))
            jl = self.journal(journal, r.died)
            if os.path.exists(trace):
                os.remove(trace)
            if jl is None or tries > 8:
                break
            dead = self.path(name + ".dead.nd")
            write_lines(dead, jl)
            out.append(dead)
            idx = json.loads(jl[0]).get("idx", frm)
            if idx > frm:  # what came before it
                out += self.record(variant, bindir, seed, idx - frm, steps, frm, extra, tag + "b%d" % tries)
            frm = idx + 1
        return out

    def journal(self, path, how):
        """The lines of a journal whose last one is the call that never returned."""
        try:
            ls = [x for x in lines_of(path) if x.startswith("{") and x.endswith("}")]
        except OSError:
            return None
        if not ls or '"op":"init"' not in ls[0]:
            return None
        if how == "hang":
            ls[-1] = ls[-1].replace('"k":"crash"', '"k":"hang"')
        return ls

    def tally(self, text):
        try:
            j = json.loads(text.strip().splitlines()[-1])
        except (ValueError, IndexError):
            return None
        with self.lock:
            for k in ("histories", "events", "cases", "executions", "skipped", "from_buffers"):
                if k in j:
                    self.more[k] = self.more.get(k, 0) + j[k]
            ops = self.more.setdefault("operations", {})
            for k, v in j.get("ops", {}).items():
                ops[k] = ops.get(k, 0) + v
        return j

    def sample(self, trace, n=3):
        if len(self.cov["samples"]) >= 6:
            return
        with open(trace) as f:
            for i, x in enumerate(f):
                if i >= n:
                    break
                if len(x) < 1500:
                    self.cov["samples"].append(json.loads(x))

    # ---- executing the specification's cases ------------------------------
    def cases(self, variant, bindir, prefix, part, parts, every=1, as_=None, setups=None):
        out = self.path("odd-%s-%d-%s.nd" % (variant, part, as_ or "a"))
        journal = out + ".journal"
        cmd = [os.path.join(bindir, "harness"), "cases", "--in", prefix, "--out", out, "--part", str(part), "--parts", str(parts), "--every", str(every)]
        cmd += (["--as", as_] if as_ else []) + (["--setups", setups] if setups else [])
        r = run(cmd, timeout=1500)
        if r.died:  # again, writing every call down before it is made
            r = run(cmd + ["--journal", journal], timeout=1500)
            if not r.died:
                raise Trouble("a crash that does not repeat")
            self.note("%s: a call did not return (%s) in build %s" % (self.prop, r.died, variant))
            jl = self.journal(journal, r.died)
            if jl:
                write_lines(out, jl)
            return out
        j = self.tally(r.out)
        if j is None:
            raise Trouble("cases: " + r.out[-500:] + r.err[-500:])
        with self.lock:
            self.cov["traces_validated_against_impl"] += j["cases"] - j["skipped"]
        self.add("odd_cases", j["odd"])
        return out

    # ---- hunting ----------------------------------------------------------
    def hunt(self, variant, bindir, seed, ms, steps=60, extra=(), frm=0, count=100000000, tag="hunt"):
        """Runs many more histories past a filter; the odd ones are recorded anew and judged by the specification."""
        journal = self.path("%s-%s-%d-%d.journal" % (tag, variant, seed, frm))
        r = run([os.path.join(bindir, "harness"), "hunt", "--seed", str(seed), "--steps", str(steps), "--focus", self.prop, "--ms", str(ms), "--from", str(frm),
                 "--count", str(count), "--max", "25", "--journal", journal, *extra], timeout=ms / 1000 + 300)
        idxs = []
        if r.died:
            try:
                idxs = [int(open(journal).read().strip()[:20])]
            except (OSError, ValueError):
                return []
        else:
            j = self.tally_hunt(r.out, tag)
            idxs = j["odd"]
        out = []
        for i in idxs:
            out += self.record(variant, bindir, seed, 1, steps, i, extra, tag + "odd")
        return out

    def tally_hunt(self, text, tag="hunt"):
        j = json.loads(text.strip().splitlines()[-1])
        self.add(tag + "_histories", j["histories"])
        self.add(tag + "_calls", j["events"])
        self.add(tag + "_odd", len(j["odd"]))
        return j

    # ---- finishing --------------------------------------------------------
    def map(self, *thunks):
        fs = [self.pool.submit(t) for t in thunks]
        return [f.result() for f in fs]

    def finish(self, assumptions):
        cov = dict(self.cov)
        cov.update(self.more)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                  assumptions=assumptions + self.notes, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for i in sorted(self.known_hit):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known[i]["what"]))
        for path, how, last in self.violations[:3]:
            log("rejected by the specification (%s): %s" % (how, json.dumps(last)[:600]))
        if self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, self.violations[0][0]))
            return 1
        print("OK property=%s states=%d transitions=%d traces=%d events=%d wall=%.0fs" % (
            self.prop, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], cov.get("events_validated", 0), time.time() - self.t0))
        return 0

    def close(self):
        self.pool.shutdown(wait=True, cancel_futures=True)
        shutil.rmtree(self.dir, ignore_errors=True)


def load_known(prop):
    path = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for x in lines_of(path):
            if x.strip() and not x.startswith("#") and not x.startswith("fixed:"):
                j = json.loads(x)
                if j["property"] == prop and j.get("match"):
                    out.append(j)
    return out
