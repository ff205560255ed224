#!/usr/bin/env python3
"""Does the binding notice?  Records histories of the library, falsifies one thing in each, and counts how many of
those the specification rejects.   tools/selftest.py [HISTORIES [SEED [PROP]]]"""
import json, os, random, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vt import *


def chars(b):
    return bytes(b).decode("utf-8")


def edit(r, b):
    """another well-formed text"""
    t = chars(b)
    k = r.randrange(5)
    if k == 0 and t:
        i = r.randrange(len(t)); t = t[:i] + t[i + 1:]
    elif k == 1 and t:
        t = t[:-1]
    elif k == 2 and len(t) > 1:
        i = r.randrange(len(t) - 1); t = t[:i] + t[i + 1] + t[i] + t[i + 2:]
    elif k == 3 and t:
        i = r.randrange(len(t)); t = t[:i] + ("a" if t[i] != "a" else "b") + t[i + 1:]
    else:
        i = r.randrange(len(t) + 1); t = t[:i] + r.choice("aé€\U0001f600") + t[i:]
    return list(t.encode())


def falsify(r, e):
    """one change to what was observed; says which"""
    kinds = ["p", "k", "x", "cn", "vw", "st", "damage"]
    if e["v"]: kinds += ["v"] * 12
    if e["j"] != e["i"] or e["t2"] != e["t"]: kinds += ["q"]
    if e["ys"]: kinds += ["ys"]
    what = r.choice(kinds)
    f = json.loads(json.dumps(e))
    if what in ("p", "q"):
        f[what] = edit(r, e[what])
        if e["t"] == e["t2"] and e["i"] == e["j"]: f["p"] = f["q"] = edit(r, e["p"])
    elif what == "k":
        f["k"] = r.choice([k for k in ("ok", "oob", "utf8", "utf16", "none", "panic", "fmt", "crash", "hang") if k != e["k"]])
    elif what == "x":
        t, i = r.choice([(t, i) for t, m in (("s", 3), ("d", 2)) for i in range(1, m + 1) if (t, i) not in ((e["t"], e["i"]), (e["t2"], e["j"]))])
        f["x"] = [[t, i, [120]]]
    elif what == "al":
        f["al"] = 1
    elif what == "cn":
        f["cn"] = 0
    elif what == "vw":
        f["vw"] = [["deref", [0]]]
    elif what == "st":
        f["st"] = [[len(e["p"]) + 1, 0, 9, e["p"]]]
    elif what == "damage":
        f["p"] = e["p"] + [0x80]
        if e["t"] == e["t2"] and e["i"] == e["j"]: f["q"] = f["p"]
    elif what == "ys":
        f["ys"] = e["ys"][:-1]
    elif what == "v":
        i = r.randrange(len(e["v"])); x = f["v"][i]
        if isinstance(x, int):
            f["v"][i] = x + 1
        else:
            f["v"] = f["v"][:-1]
    return (what, f) if f != e else None


def leaf(r, x):
    """changes one number or word in x"""
    if isinstance(x, list) and x:
        i = r.randrange(len(x))
        return x[:i] + [leaf(r, x[i])] + x[i + 1:]
    if isinstance(x, list):
        return [7]
    return x + 1 if isinstance(x, int) else x + "?"


def others():
    """The recorders of the other specifications: one observed field falsified on some lines."""
    r = random.Random(1)
    c = Check("C14", "quick", 1)
    for module, variant, cmd, fields in (("DbJudge", "dev-db", ["db", "--seed", "1", "--count", "60", "--steps", "30", "--out"], ["k", "v"]),
                                         ("Errors", "dev-misc", ["errors"], ["got", "eq", "hash", "show", "debug", "same", "ok"]),
                                         ("Capacity", "dev-caps", ["caps"], ["size", "align", "cap", "k", "p", "tr", "len", "same", "full"])):
        t = c.path(module + ".nd")
        run([os.path.join(build(variant), cmd[0])] + cmd[1:] + [t])
        out, made = [], []
        for x in lines_of(t):
            e = json.loads(x)
            have = [f for f in fields if f in e]
            if have and e.get("op") != "init" and r.random() < (1.0 if module == "Errors" else 0.2):
                f = r.choice(have)
                e[f] = leaf(r, e[f])
                made.append((len(out) + 1, f, x, e))
                x = json.dumps(e, separators=(",", ":"))
            out.append(x)
        write_lines(t, out)
        res = tlc(module, c.dir, dict(PROP="C14", TRACE=t))
        bad = set(res.bad)
        for at, f, x, e in made:
            if at not in bad and "-v" in sys.argv:
                print(module, f, x[:300], "\n    =>", json.dumps(e[f])[:200])
        print("%s: falsified %d, rejected %d" % (module, len(made), sum(m[0] in bad for m in made)))
    c.close()


def main():
    a = [x for x in sys.argv[1:] if x != "-v"]
    count, seed, prop = int(a[0]) if a else 400, int(a[1]) if len(a) > 1 else 1, a[2] if len(a) > 2 else "ALL"
    c = Check("C12", "quick", seed)
    c.prop = "C01" if prop == "ALL" else prop
    d = build("dev")
    lines, made = [], []
    r = random.Random(seed)
    for t in c.record("dev", d, seed, count, steps=14):
        hs = []
        for x in lines_of(t):
            if '"op":"init"' in x: hs.append([x])
            else: hs[-1].append(x)
        for h in hs:
            if len(h) < 2: continue
            at = r.randrange(1, len(h))
            e = json.loads(h[at])
            y = falsify(r, e)
            if not y: continue
            lines += h[:at] + [json.dumps(y[1], separators=(",", ":"))]
            made.append((len(lines), y[0], e, y[1]))
    path = c.path("false.nd")
    write_lines(path, lines)
    res = tlc("Judge", c.dir, dict(PROP=prop, TRACE=path))
    bad = set(res.bad)
    assert res.consumed and res.consumed[0] == res.consumed[1], res.out[-2000:]
    tally = {}
    for at, what, e, f in made:
        tally.setdefault(what, [0, 0])
        tally[what][0] += 1
        tally[what][1] += at in bad
        if at not in bad and "-v" in sys.argv:
            print(what, json.dumps(e)[:600], "\n    =>", json.dumps({k: f[k] for k in f if f[k] != e[k]})[:300])
    stray = bad - {m[0] for m in made}
    print("falsified %d, rejected %d, stray %d: %s" % (len(made), sum(x[1] for x in tally.values()), len(stray),
          ", ".join("%s %d/%d" % (k, v[1], v[0]) for k, v in sorted(tally.items()))))
    c.close()


if "others" in sys.argv:
    others()
else:
    main()
