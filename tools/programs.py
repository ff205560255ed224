"""Small programs over the public API, offered to the compiler: for spec/Programs.tla."""
import itertools, json, os, subprocess

from vt import Trouble

RANGES = dict(full="..", to="..1u8", range="0u8..1u8", inclusive="0u8..=0u8", to_inclusive="..=0u8")
RANGES["from"] = "1u8.."
SHARED = dict(as_str="s.as_str()", deref="{ let v: &str = &s; v }", as_ref_str="AsRef::<str>::as_ref(&s)", as_ref_bytes="AsRef::<[u8]>::as_ref(&s)",
              borrow="std::borrow::Borrow::<str>::borrow(&s)", chars="s.chars()", bytes="s.as_bytes()")
SHARED.update({"index_" + k: "&s[%s]" % r for k, r in RANGES.items()})
UNIQUE = dict(as_mut_str="s.as_mut_str()", deref_mut="{ let v: &mut str = &mut s; v }", as_mut="AsMut::<str>::as_mut(&mut s)",
              borrow_mut="std::borrow::BorrowMut::<str>::borrow_mut(&mut s)")
UNIQUE.update({"index_mut_" + k: "&mut s[%s]" % r for k, r in RANGES.items()})
OWNED = dict(clone="s.clone()", copy="{ let c = s; c }", drain="s.drain(..)", split_off="s.split_off(0)", pop="s.pop()", remove="s.remove(0)", len="s.len()",
             hash="{ let mut m = std::collections::HashMap::new(); m.insert(s, 1); m }", add="s + \"a\"", insert="s.insert_str_truncate(0, \"a\")",
             replace="s.replace_range(.., \"a\")", display="s.to_string()", eq="s == s")
DRAIN = dict(as_str="s.as_str()", clone="s.clone()", copy="{ let c = s; c }", next="s.next()", next_back="s.next_back()", size_hint="s.size_hint()",
             hash="{ let mut m = std::collections::HashMap::new(); m.insert(s, 1); m }", eq="s == s")
ARG = dict(try_from_str="TY::try_from_str(&s)", from_str_truncate="TY::from_str_truncate(&s)", parse="s.parse::<TY>()", from_iter="[&s[..]].into_iter().collect::<TY>()",
           from_chars="TY::from_chars_truncate(s.chars())", from_utf16="TY::from_utf16_truncate(&s.encode_utf16().collect::<Vec<_>>())",
           push="{ let mut x = TY::new(); x.push_str_truncate(&s); x }", extend="{ let mut x = TY::new(); x.extend([&s[..]]); x }",
           insert="{ let mut x = TY::new(); let _ = x.try_insert_str(0, &s); x }", replace="{ let mut x = TY::new(); let _ = x.replace_range(.., &s); x }",
           add="TY::new() + &s[..]", drain="{ let mut x = TY::from_str_truncate(&s); x.drain(..) }")
ARG["from"] = "TY::from(&s[..])"
TYPES = dict(string="arraystring::ArrayString<8>", cache="arraystring::prelude::CacheString", drain="arraystring::Drain<8>", error="arraystring::Error",
             utf8="arraystring::error::Utf8", utf16="arraystring::error::Utf16", out_of_bounds="arraystring::error::OutOfBounds")
MAKE = dict(string="arraystring::ArrayString::<8>::from_str_truncate(\"ab\")", cache="arraystring::prelude::CacheString::from_str_truncate(\"ab\")",
            drain="arraystring::ArrayString::<8>::from_str_truncate(\"ab\").drain(..).unwrap()", arg="String::from(\"ab\")", cache_arg="String::from(\"ab\")")
METHODS = dict(string={**SHARED, **UNIQUE, **OWNED}, cache={**SHARED, **UNIQUE, **OWNED}, drain=DRAIN, arg=ARG, cache_arg=ARG)
STEP = dict(read="use_(&s.len());", copy="let c = s;", change="s.clear();", share="std::thread::scope(|t| { t.spawn(|| use_(&s.len())); });",
            send="std::thread::spawn(move || use_(&s.len()));")
DRAIN_STEP = dict(STEP, read="use_(&s.as_str());", change="s.next();", share="std::thread::scope(|t| { t.spawn(|| use_(&s.as_str())); });",
                  send="std::thread::spawn(move || use_(&s.as_str()));")
ARG_STEP = dict(read=STEP["read"], change=STEP["change"], share=STEP["share"])
VALUE = dict(Copy="Copy", Clone="Clone", Send="Send", Sync="Sync", Unpin="Unpin", UnwindSafe="std::panic::UnwindSafe", RefUnwindSafe="std::panic::RefUnwindSafe",
             Static="'static", Default="Default", Debug="std::fmt::Debug", Eq="Eq")
STRING = dict(VALUE, Ord="Ord", Hash="std::hash::Hash", Display="std::fmt::Display", Write="std::fmt::Write")
ITER = dict(VALUE, Ord="Ord", Hash="std::hash::Hash", Iterator="Iterator<Item = char>", DoubleEndedIterator="DoubleEndedIterator", FusedIterator="std::iter::FusedIterator")
ERROR = dict(VALUE, Display="std::fmt::Display", Error="std::error::Error")
TRAITS = dict(string=STRING, cache=STRING, drain=ITER, utf8=ERROR, utf16=ERROR, out_of_bounds=ERROR,
              error={k: v for k, v in dict(ERROR, Hash="std::hash::Hash").items() if k != "Default"})
NEVER = dict(AsMutBytes="AsMut<[u8]>", BorrowBytes="std::borrow::Borrow<[u8]>", BorrowMutBytes="std::borrow::BorrowMut<[u8]>",
             IndexMutByte="std::ops::IndexMut<usize>", DerefMutBytes="std::ops::DerefMut<Target = [u8]>")
PARTS = ["let s = arraystring::ArrayString::<8> { array: [255; 8], size: 8 };",
         "let mut s = arraystring::ArrayString::<8>::new(); s.size = 200;",
         "let mut s = arraystring::ArrayString::<8>::from_str_truncate(\"ab\"); s.array[0] = 255;",
         "let mut s = arraystring::prelude::CacheString::from_str_truncate(\"ab\"); s.0.size = 200;",
         "let mut s = arraystring::prelude::CacheString::from_str_truncate(\"ab\"); s.array[0] = 255;"]
CONSTS = ["const S: arraystring::ArrayString<8> = arraystring::ArrayString::new(); use_(&S);",
          "static S: arraystring::ArrayString<255> = arraystring::ArrayString::new(); use_(&S);",
          "const S: arraystring::prelude::CacheString = arraystring::prelude::CacheString::new(); use_(&S);",
          "static S: arraystring::prelude::CacheString = arraystring::prelude::CacheString::new(); use_(&S);",
          "let room = [0u8; arraystring::ArrayString::<8>::capacity()]; use_(&room);",
          "let room = [0u8; arraystring::prelude::CacheString::capacity()]; use_(&room);",
          "const fn f() -> arraystring::ArrayString<3> { arraystring::ArrayString::new() } use_(&f());"]
HEAD = "#![allow(warnings)]\nfn use_<T: ?Sized>(_: &T) {}\n"


def loan(ty, m, steps, used):
    step = DRAIN_STEP if ty == "drain" else ARG_STEP if ty.endswith("arg") else STEP
    take = METHODS[ty][m].replace("TY", {"arg": "arraystring::ArrayString::<8>", "cache_arg": "arraystring::prelude::CacheString"}.get(ty, ""))
    inner = "let mut s = %s; v = %s; %s" % (MAKE[ty], take, " ".join(step[x] for x in steps if x != "gone"))
    if "gone" in steps:
        inner = "{ " + inner + " }"
    return "pub fn f() { let mut v; %s %s }\n" % (inner, "use_(&v);" if used else "")


def programs(prop, deep):
    """(record without the verdict, source) of every program this property is about."""
    out = []
    if prop == "C12":
        for ty in METHODS:
            step = sorted((ARG_STEP if ty.endswith("arg") else STEP).keys())
            seqs = [()] + [(x,) for x in step] + [("gone",)]
            if deep:
                seqs += list(itertools.product(step, repeat=2)) + [(x, "gone") for x in step]
            for m in METHODS[ty]:
                for steps in seqs:
                    for used in (1, 0):
                        out.append((dict(op="loan", ty=ty, m=m, steps=list(steps), u=used), loan(ty, m, steps, used)))
        for ty, ts in TRAITS.items():
            for tr, bound in ts.items():
                out.append((dict(op="trait", ty=ty, tr=tr), "fn need<T: ?Sized + %s>() {} pub fn f() { need::<%s>() }\n" % (bound, TYPES[ty])))
        for i, x in enumerate(CONSTS):
            out.append((dict(op="const", n=i), "pub fn f() { %s }\n" % x))
    else:  # C01, C09
        for ty in ("string", "cache"):
            for tr, bound in NEVER.items():
                if (tr == "BorrowBytes") == (prop == "C09"):
                    out.append((dict(op="trait", ty=ty, tr=tr), "fn need<T: ?Sized + %s>() {} pub fn f() { need::<%s>() }\n" % (bound, TYPES[ty])))
        for i, x in enumerate(PARTS if prop == "C01" else []):
            out.append((dict(op="part", n=i), "pub fn f() { %s }\n" % x))
    return out


def offered(sources, rlib, deps, path):
    """Which of these programs the compiler accepts: what is left when those that contain an error are taken out compiles as a whole."""
    ok = [True] * len(sources)
    for _ in range(6):
        with open(path, "w") as f:  # one program a line
            f.write(HEAD + "\n" + "".join("mod m%d { use super::use_; %s }\n" % (i, x.strip()) if ok[i] else "\n" for i, x in enumerate(sources)))
        r = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "lib", "--emit", "metadata", "--crate-name", "programs", "-o", path + ".rmeta",
                            "--error-format", "json", "--extern", "arraystring=" + rlib, "-L", "dependency=" + deps, path], capture_output=True, text=True)
        if r.returncode == 0:
            os.remove(path)
            return ok
        found = False
        for x in r.stderr.splitlines():
            try:
                m = json.loads(x)
            except ValueError:
                continue
            if m.get("level") != "error":
                continue
            for sp in m.get("spans", []):
                i = sp["line_start"] - 4
                if sp["is_primary"] and os.path.basename(sp["file_name"]) == os.path.basename(path) and 0 <= i < len(ok) and ok[i]:
                    ok[i] = False
                    found = True
        if not found:
            raise Trouble("rustc: " + r.stderr[-800:])
    raise Trouble("rustc: still errors")
