#!/usr/bin/env python3
"""Lay out /verif/seeded from tools/seeds/*.seed (run by hand; no check reads either).

A .seed file: header lines "key: value" (property, needs, breaks), then blocks
"@@ path" / old text / "==" / new text, then "@@demo" and the demonstration's main.rs."""
import difflib, glob, json, os, re, shutil, stat, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.join(ROOT, "tools", "seeds")
OUT = os.path.join(ROOT, "seeded")
CARGO = open(os.path.join(SRC, "Cargo.toml")).read()
DEMO = open(os.path.join(SRC, "demo.sh")).read()
UTIL = open(os.path.join(SRC, "util.rs")).read()
only = sys.argv[1:]

for path in sorted(glob.glob(os.path.join(SRC, "*.seed"))):
    name = os.path.basename(path)[:-5]
    if only and name not in only:
        continue
    text = open(path).read()
    head, rest = text.split("@@ ", 1)
    meta = dict(l.split(": ", 1) for l in head.strip().splitlines())
    rest, demo = ("@@ " + rest).split("@@demo\n", 1)
    files = {}
    for block in re.split(r"^@@ ", rest, flags=re.M)[1:]:
        f, body = block.split("\n", 1)
        old, new = re.split(r"^==\n", body, flags=re.M)
        orig = open("/repo/" + f).read()
        cur = files.setdefault(f, [orig, orig])
        if cur[1].count(old) != 1:
            sys.exit("%s: %s: text occurs %d times:\n%s" % (name, f, cur[1].count(old), old))
        cur[1] = cur[1].replace(old, new)
    patch = ""
    for f, (a, b) in sorted(files.items()):
        patch += "diff --git a/%s b/%s\n" % (f, f)
        patch += "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
    d = os.path.join(OUT, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(os.path.join(d, "patch.diff"), "w").write(patch)
    json.dump({"property": meta["property"], "needs": meta["needs"], "what_it_breaks": meta["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.rs"), "w").write(demo)
    open(os.path.join(d, "util.rs"), "w").write(UTIL)
    open(os.path.join(d, "Cargo.toml.in"), "w").write(CARGO)
    shutil.copy(os.path.join(ROOT, "harness", "Cargo.lock"), os.path.join(d, "Cargo.lock.in"))
    print(name)
