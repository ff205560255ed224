"""What each check runs.  `run_check(prop, tier, seed)` returns the exit status."""
import json, os, re, subprocess, sys
from vt import *
import programs

HISTORY = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C18", "C19", "C21"]
ALL = ["C%02d" % i for i in range(1, 22)]

ASSUME = ["rustc, the standard library, TLC and the harness's recording of what the public API returns are trusted",
          "beyond the enumerated domains, histories are sampled (seeded)"]

# which domains of Gen are enumerated by the quick tier (the thorough one uses the big ones throughout)
TINY_QUICK = {"C08", "C11"}


def plan(c):
    """Volumes by tier."""
    if c.quick:
        return dict(size="tiny" if c.prop in TINY_QUICK else "big", laws="tiny", recs=4, count=350, hunts=(6, 4), ms=15000, every=6)
    return dict(size="big", laws="big", recs=24, count=600, hunts=(16, 8), ms=60000, every=2)


def run_check(prop, tier, seed):
    c = Check(prop, tier, seed)
    try:
        f = SPECIAL.get(prop, history)
        f(c)
        return c.finish(ASSUME)
    except Enough:
        c.note("stopped at the first violations: the figures are of an unfinished run")
        return c.finish(ASSUME)
    except Trouble as e:
        # what was found before the trouble still counts
        if c.violations:
            c.note("incomplete: %s" % str(e)[:300])
            return c.finish(ASSUME)
        print("NO ANSWER property=%s: %s" % (prop, e))
        return 2
    finally:
        c.close()


def wait(fs):
    err = enough = None
    out = []
    for f in fs:
        try:
            out.append(f.result())
        except Trouble as e:
            err = err or e
        except Enough as e:
            enough = e
    if enough:
        raise enough
    if err:
        raise err
    return out


def judge_all(c, traces, describe, variant, count=True, **kw):
    for t in traces:
        n = c.judge(t, describe=describe, variant=variant, **kw)
        if n and count:
            hs = sum(1 for x in open(t) if '"op":"init"' in x)
            with c.lock:
                c.cov["traces_validated_against_impl"] += hs
            c.add("histories_judged", hs)


def history(c, variants=("dev", "rel"), gen=True, extra=()):
    """Laws of the model; its calls enumerated and executed; recorded histories validated; many more filtered."""
    p = plan(c)
    dev, rel = variants
    s = c.pool.submit
    f_dev, f_rel = s(build, dev), s(build, rel)
    f_gen = s(c.generate, p["size"]) if gen else None
    f_buf = s(c.buffers, p["laws"]) if gen else None
    f_law = s(c.laws, "Machine", dict(PROP=c.prop, SIZE=p["laws"]))
    todo = []

    def rec(variant, fut, seed):
        d = fut.result()
        ts = c.record(variant, d, seed, p["count"], extra=extra)
        if ts:
            c.sample(ts[0])
        judge_all(c, ts, "random history, seed %d" % seed, variant)
        for t in ts:
            os.remove(t)

    def case(variant, fut, part, parts, every, as_=None):
        o = c.cases(variant, fut.result(), f_gen.result(), part, parts, every, as_, None if as_ else f_buf.result())
        judge_all(c, [o], "enumerated case", variant, count=False)

    def hunt(variant, fut, seed):
        ts = c.hunt(variant, fut.result(), seed, p["ms"], extra=extra)
        judge_all(c, ts, "random history found by the filter, seed %d" % seed, variant)

    def scalars(variant, fut, frm, count, stride):
        ts = c.hunt(variant, fut.result(), 1, 600000, extra=("--scalars", "1", "--stride", str(stride)), frm=frm, count=count, tag="scalar")
        judge_all(c, ts, "fixed history around one character", variant)

    for i in range(p["recs"]):
        todo.append(s(rec, dev, f_dev, c.seed * 1000 + i))
        todo.append(s(rec, rel, f_rel, c.seed * 1000 + 500 + i))
    if c.prop in ("C05", "C10", "C12"):
        todo.append(s(c.arithmetic))
    f_off = s(library) if c.prop in ("C01", "C09", "C12") else None
    if c.prop in ("C01", "C08", "C09"):  # every scalar value, or an eleventh of them
        todo.append(s(c.laws, "Scalars", dict(EVERY="11" if c.quick else "1", SEED=str(c.seed)), heap="2g", workers=1))
    if c.prop == "C12":  # several threads at once, each with objects of its own
        def threaded(variant, fut, seed):
            ts = c.record(variant, fut.result(), seed, 4 * p["count"], extra=("--threads", "8"), tag="threads")
            judge_all(c, ts, "random histories of eight threads at once, seed %d" % seed, variant)
        todo += [s(threaded, v, f, c.seed * 1000 + 900) for v, f in ((rel, f_rel), (dev, f_dev))]
    if gen:
        for i in range(CPUS):
            todo.append(s(case, rel, f_rel, i, CPUS, 1))
        for i in range(CPUS):
            todo.append(s(case, dev, f_dev, i, CPUS, p["every"]))
        for i in range(4):
            todo.append(s(case, rel, f_rel, i, 4, 1, "c"))
    for i in range(p["hunts"][0]):
        todo.append(s(hunt, rel, f_rel, c.seed * 1000 + 700 + i))
    for i in range(p["hunts"][1]):
        todo.append(s(hunt, dev, f_dev, c.seed * 1000 + 800 + i))
    def every(variant, fut, seed):
        d = fut.result()
        if d is None:
            return c.note("not every capacity can be used: none but the usual ones were")
        ts = c.hunt(variant, d, seed, p["ms"] * 2 // 3, extra=("--types", "a", *extra), tag="every-capacity")
        judge_all(c, ts, "random history found by the filter, every capacity, seed %d" % seed, variant)

    if gen and variants == ("dev", "rel"):  # strings of all 255 capacities
        for v in (["all"] if c.quick else ["all", "rel-all", "dev-all"]):
            f = s(build, v, True)
            todo.append(f)
            todo += [s(every, v, f, c.seed * 1000 + 850 + i) for i in range(6 if c.quick else CPUS)]
    for v, f in ([(rel, f_rel)] if c.quick else [(rel, f_rel), (dev, f_dev)]):
        for i in range(4):  # the basic plane: all of it; the others: some or all of them
            todo.append(s(scalars, v, f, 15872 * i, 15872, 1))
        far = range(63488, 1112064, 65536)
        for i, at in enumerate(far):
            todo.append(s(scalars, v, f, at + (c.seed + i) % 11 if c.quick else at, 65536, 11 if c.quick else 1))
    if f_off:
        offers(c, *f_off.result())
    wait([f_dev, f_rel, f_law] + ([f_gen, f_buf] if gen else []) + todo)


def serde(c):
    history(c, ("dev-serde", "rel-serde"))


def lockstep(c, base, base_future, targets, extra, as_=None, volume=True):
    """Records histories with one build (or type), re-executes them with others, and validates the pairs in lockstep."""
    p = plan(c)
    d = base_future

    def one(i, small):
        seed = c.seed * 1000 + i
        bd = d.result()
        count = 150 if small else (2500 if c.quick else 12000)
        traces = c.record(base, bd, seed, count, steps=40, extra=extra, tag="base%d" % small)
        for t in traces:
            if not small and any('"k":"crash"' in x or '"k":"hang"' in x for x in lines_of(t)[-1:]):
                continue
            if small:
                c.sample(t)
            for name, fut in targets:
                td = fut.result()
                left, right = t, c.path("again-%s-%d-%d-%s.nd" % (name, i, small, os.path.basename(t)))
                cmd = [os.path.join(td, "harness"), "replay", "--in", t, "--out", right, "--journal", right + ".journal"]
                if as_:
                    cmd += ["--as", as_]
                if name.endswith("~off"):
                    cmd += ["--log", "off"]
                if not small:
                    left = right + ".was"
                    cmd += ["--was", left, "--max", "20"]
                r = run(cmd, timeout=900)
                if r.died:
                    c.note("a call did not return (%s) in %s" % (r.died, name))
                    jl = c.journal(right + ".journal", r.died)
                    if not jl:
                        continue
                    ls = lines_of(t)
                    idx = json.loads(jl[0]).get("idx")
                    at = [k for k, x in enumerate(ls) if '"op":"init"' in x and json.loads(x).get("idx") == idx]
                    left = right + ".dead.was"
                    write_lines(left, ls[at[0]:at[0] + len(jl)])
                    write_lines(right, jl)
                else:
                    c.add("histories_compared", json.loads(r.out.strip().splitlines()[-1])["histories"] and sum(1 for x in open(t) if '"op":"init"' in x))
                if os.path.getsize(left) == 0 and os.path.getsize(right) == 0:
                    continue
                judge_all(c, [left], "%s and %s in lockstep, seed %d" % (base, name, seed), base, module="Pair", env=dict(TRACE2=right), kind="pair",
                          extra=lambda span, right=right, name=name: dict(other=name, as_=as_, right=lines_of(right)[span[0] - 1:span[1]]))
            os.remove(t)

    s = c.pool.submit
    n = 4 if c.quick else 8
    return [s(one, i, True) for i in range(n)] + ([s(one, 100 + i, False) for i in range(n)] if volume else [])


def cache(c):
    """C16: CacheString in lockstep with ArrayString<63>, and each on its own against the model."""
    s = c.pool.submit
    f_dev, f_rel, f_serde = s(build, "dev"), s(build, "rel"), s(build, "rel-serde")
    f_law = s(c.laws, "Machine", dict(PROP=c.prop, SIZE="tiny" if c.quick else "big"))
    f_gen = s(c.generate, "tiny" if c.quick else "big")
    ex = ("--types", "a", "--caps", "63")
    todo = lockstep(c, "dev", f_dev, [("dev", f_dev)], ex, as_="c")
    todo += lockstep(c, "rel", f_rel, [("rel", f_rel)], ex, as_="c", volume=False)
    todo += lockstep(c, "rel-serde", f_serde, [("rel-serde", f_serde)], ex, as_="c", volume=False)

    def rec(variant, fut, seed):
        ts = c.record(variant, fut.result(), seed, plan(c)["count"] // 2, extra=("--types", "c"), tag="own")
        judge_all(c, ts, "random CacheString history, seed %d" % seed, variant)
    todo += [s(rec, "dev", f_dev, c.seed * 1000 + 300 + i) for i in range(2)] + [s(rec, "rel", f_rel, c.seed * 1000 + 310 + i) for i in range(2)]

    def case(part):
        o = c.cases("rel", f_rel.result(), f_gen.result(), part, 4, 1, "c")
        judge_all(c, [o], "enumerated case", "rel", count=False)
    todo += [s(case, i) for i in range(4)]

    def hunt(seed):
        ts = c.hunt("rel", f_rel.result(), seed, plan(c)["ms"], extra=("--types", "c"))
        judge_all(c, ts, "random CacheString history found by the filter, seed %d" % seed, "rel")
    todo += [s(hunt, c.seed * 1000 + 400 + i) for i in range(3)]
    wait([f_dev, f_rel, f_serde, f_law, f_gen] + todo)


def builds(c):
    """C17: the same histories in every build."""
    s = c.pool.submit
    names = ["dev", "rel", "dev-none", "rel-none", "dev-logs", "rel-logs", "dev-serde", "rel-every", "dev-nopan"] + ([] if c.quick else ["opt-every"])
    fs = {n: s(build, n) for n in names}
    names.append("rel-every~off")  # logging compiled in, but nobody listens
    fs["rel-every~off"] = fs["rel-every"]
    f_law = s(c.laws, "Machine", dict(PROP=c.prop, SIZE="tiny" if c.quick else "big"))
    todo = lockstep(c, "dev", fs["dev"], [(n, fs[n]) for n in names if n != "dev"], ())
    wait(list(fs.values()) + [f_law] + todo)


def errors(c):
    s = c.pool.submit
    fs = [(v, s(build, v)) for v in ("dev-misc", "rel-misc")]

    def go(v, f):
        t = c.path("errors-%s.nd" % v)
        r = run([os.path.join(f.result(), "errors"), t])
        if r.died:
            raise Trouble("errors: " + r.err)
        c.sample(t, 4)
        n = c.judge(t, "Errors", describe="conversions and pairs of errors", kind="line", variant=v)
        with c.lock:
            c.cov["traces_validated_against_impl"] += 1
            c.cov["states"] += n + 1
            c.cov["transitions"] += n
    wait([s(go, v, f) for v, f in fs])


PROBES = ["pub fn f() -> usize { arraystring::ArrayString::<{N}>::new().len() }",
          "pub fn f() -> usize { <arraystring::ArrayString<{N}> as Default>::default().len() }",
          "pub fn f() -> bool { arraystring::ArrayString::<{N}>::try_from_str(\"a\").is_ok() }",
          "pub fn f() -> bool { \"a\".parse::<arraystring::ArrayString<{N}>>().is_ok() }"]
BEYOND = [0] + list(range(256, 301)) + [383, 384, 509, 510, 511, 512, 513, 767, 768, 1000, 1023, 1024, 4096, 32767, 32768, 65535, 65536, 65537, 65791,
                                      1 << 24, (1 << 31) - 1]
HUGE = [1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 255, (1 << 63), (1 << 64) - 1]


def probe(c, rlib, deps, n, which, tag):
    src = c.path("probe-%s.rs" % tag)
    with open(src, "w") as f:
        f.write("#![allow(dead_code)]\n" + PROBES[which].replace("{N}", str(n)) + "\n")
    r = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "lib", "--emit", "metadata", "--crate-name", "probe", "-o", src + ".rmeta",
                        "--extern", "arraystring=" + rlib, "-L", "dependency=" + deps, src], capture_output=True, text=True)
    os.remove(src)
    if r.returncode != 0 and "error" not in r.stderr:
        raise Trouble("rustc: " + r.stderr[-500:])
    if r.returncode == 0:
        return 1
    if re.search(r"error(\[E0277\]|\[E0599\]|\[E0080\]|\[E0308\])", r.stderr):
        return 0
    raise Trouble("rustc: " + r.stderr[-800:])


def library(variant="dev-misc"):
    """The library itself and the folder of what it depends on (even if the harness does not build with it)."""
    d = build(variant, True)
    deps = os.path.join(d or os.path.join(WORK, "t-" + variant, "debug"), "deps")
    if not os.path.isdir(deps):
        raise Trouble("nothing was built")
    rlibs = [os.path.join(deps, f) for f in os.listdir(deps) if re.match(r"libarraystring-[0-9a-f]+\.rlib$", f)]
    if not rlibs:
        raise Trouble("no library to offer programs for")
    return max(rlibs, key=os.path.getmtime), deps


def offers(c, rlib, deps):
    """Which programs over the public API the compiler accepts."""
    ps = programs.programs(c.prop, not c.quick)
    parts = [ps[k::CPUS] for k in range(CPUS) if ps[k::CPUS]]
    rows = wait([c.pool.submit(programs.offered, [x for _, x in part], rlib, deps, c.path("offered%d.rs" % k)) for k, part in enumerate(parts)])
    t = c.path("programs.nd")
    write_lines(t, [json.dumps(dict(rec, ok=int(ok), src=src.strip()), separators=(",", ":")) for part, oks in zip(parts, rows) for (rec, src), ok in zip(part, oks)])
    c.sample(t, 3)
    n = c.judge(t, "Programs", describe="programs over the public API", kind="program", variant="dev-misc")
    c.add("programs_offered", n)
    with c.lock:
        c.cov["states"] += n + 1
        c.cov["transitions"] += n


def capacities(c):
    """C15: layout, filling and availability of every capacity."""
    s = c.pool.submit
    f_misc = s(build, "dev-misc")
    f_caps = [(v, s(build, v, True)) for v in ("dev-caps", "rel-caps")]
    f_law = s(c.laws, "Machine", dict(PROP="C01", SIZE="tiny"))
    f_misc.result()
    rlib, deps = library()
    jobs = []
    for n in BEYOND + HUGE:
        for w in (range(len(PROBES)) if n in (0, 256, 257) or not c.quick else (0, 2)):
            jobs.append((n, w))
    for n in range(1, 256):
        for w in ([n % len(PROBES)] if c.quick else range(len(PROBES))):
            jobs.append((n, w))

    def some(k):
        out = []
        for i, (n, w) in enumerate(jobs):
            if i % CPUS == k:
                out.append((i, n, w, probe(c, rlib, deps, n, w, "%d" % i)))
        return out

    def filled(v, f):
        d = f.result()
        if d is None:
            return False
        t = c.path("caps-%s.nd" % v)
        r = run([os.path.join(d, "caps"), t])
        if r.died:
            raise Trouble("caps died: " + r.err[-300:])
        c.sample(t, 3)
        n = c.judge(t, "Capacity", describe="layout and filling", kind="line", variant=v)
        with c.lock:
            c.cov["traces_validated_against_impl"] += sum(1 for x in open(t) if '"op":"layout"' in x)
            c.cov["states"] += n + 1
            c.cov["transitions"] += n
        return True
    fills = [s(filled, v, f) for v, f in f_caps]
    rows = [x for part in wait([s(some, k) for k in range(CPUS)]) for x in part]
    t = c.path("probes.nd")
    write_lines(t, [json.dumps(dict(op="probe", n=n if n < 1 << 31 else -1, real=str(n), which=w, ok=ok), separators=(",", ":")) for _, n, w, ok in sorted(rows)])
    n = c.judge(t, "Capacity", describe="availability", kind="line", variant="dev-misc")
    c.add("availability_probes", n)
    with c.lock:
        c.cov["states"] += n + 1
        c.cov["transitions"] += n
    built = wait(fills)
    wait([f_law])
    if not all(built) and not c.violations:
        raise Trouble("the recorder of all capacities does not build although every capacity is available")


def database(c):
    """C14."""
    s = c.pool.submit
    f_dev, f_rel = s(build, "dev-db"), s(build, "rel-db")
    hs = c.path("histories")
    f_law = s(c.laws, "DbMachine", dict(SIZE="tiny" if c.quick else "big", OUT=hs))

    def go(v, f, args, describe):
        d = f.result()
        t = c.path("db-%s-%s.nd" % (v, "-".join(x.strip("-") for x in args if "/" not in x)))
        r = run([os.path.join(d, "db"), "--out", t, *args], timeout=900)
        if r.died:
            ls = open(t, errors="replace").read()
            if not ls.endswith("\n"):
                ls += 'crash","v":[]}\n'
                open(t, "w").write(ls)
            c.note("a call did not return (%s) in build %s" % (r.died, v))
        c.sample(t, 4)
        judge_all(c, [t], describe, v, module="DbJudge", kind="db")
        os.remove(t)

    def enumerated(v, f, every, off):
        f_law.result()
        go(v, f, ["--in", hs, "--every", str(every), "--offset", str(off)], "enumerated history")
    todo = []
    if c.quick:
        todo += [s(enumerated, "rel-db", f_rel, 16, 4 * k + c.seed % 4) for k in range(4)]
        todo += [s(enumerated, "dev-db", f_dev, 32, 8 * k + 1 + c.seed % 4) for k in range(2)]
    else:
        todo += [s(enumerated, "rel-db", f_rel, 32, k) for k in range(32)]
        todo += [s(enumerated, "dev-db", f_dev, 128, k) for k in range(16)]
    k = 3 if c.quick else 24
    for i in range(k):
        todo.append(s(go, "rel-db", f_rel, ["--seed", str(c.seed * 1000 + i), "--count", "150", "--steps", "50"], "random history"))
        todo.append(s(go, "dev-db", f_dev, ["--seed", str(c.seed * 1000 + 500 + i), "--count", "150", "--steps", "50"], "random history"))
    wait([f_dev, f_rel, f_law] + todo)


SPECIAL = {"C13": serde, "C14": database, "C15": capacities, "C16": cache, "C17": builds, "C20": errors}


# --------------------------------------------------------------------------

def run_replay(path):
    """Re-executes a replay file against /repo's current tree and says whether the specification still rejects it."""
    rec = json.load(open(path))
    prop, kind, variant = rec["property"], rec["kind"], rec.get("variant") or "dev"
    c = Check(prop, "quick", 1)
    try:
        print("property %s, found by: %s (build %s)" % (prop, rec["how"], variant))
        for x in rec["lines"]:
            print("  " + x[:400])
        if kind == "line":  # these recorders are deterministic: run them again
            try:
                SPECIAL[prop](c)
            except Enough:
                pass
        elif kind == "program":
            rlib, deps = library(variant)
            out = c.path("out.nd")
            x = json.loads(rec["lines"][0])
            x["ok"] = int(programs.offered([x["src"]], rlib, deps, c.path("again.rs"))[0])
            write_lines(out, [json.dumps(x)])
            c.judge(out, "Programs", describe="replay", kind="program", variant=variant)
        elif kind == "db":
            src, out = c.path("in.nd"), c.path("out.nd")
            write_lines(src, rec["lines"])
            run([os.path.join(build(variant), "db"), "--replay", src, "--out", out])
            c.judge(out, "DbJudge", describe="replay", kind="db", variant=variant)
        else:
            src, out = c.path("in.nd"), c.path("out.nd")
            write_lines(src, rec["lines"])

            def again(v, dst, as_=None):
                r = run([os.path.join(build(v.removesuffix("~off")), "harness"), "replay", "--in", src, "--out", dst, "--journal", dst + ".j"]
                        + (["--as", as_] if as_ else []) + (["--log", "off"] if v.endswith("~off") else []))
                if r.died:
                    write_lines(dst, c.journal(dst + ".j", r.died) or [])
            again(variant, out)
            if kind == "pair":
                right = c.path("right.nd")
                again(rec["other"], right, rec.get("as_"))
                c.judge(out, "Pair", env=dict(TRACE2=right), describe="replay", kind="trace", variant=variant)
            else:
                c.judge(out, describe="replay", variant=variant)
        if c.violations:
            print("still rejected by the specification: %s" % json.dumps(c.violations[0][2])[:800])
            return 1
        print("accepted by the specification")
        return 0
    finally:
        c.close()
