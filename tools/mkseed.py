#!/usr/bin/env python3
"""Turns the edit now in /repo's working tree into seeded/<id>/ and tries it.

usage: mkseed.py ID PROPERTY NEEDS BREAKS DEMO.cc [unit ...]   (units: names of
       nsasm/*.cc to link, or "lib" for the whole library with the shim)
       mkseed.py --try ID [PROPERTY ...]     apply, run the checks, undo
       mkseed.py --verify ID
"""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SYS = """#!/bin/bash
# exit 0: the property holds on this input
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++20 -g -iquote . "$d/demo.cc" %s -o "$t/demo" $(pkg-config --libs absl_str_format absl_strings absl_flat_hash_map absl_bad_variant_access absl_bad_optional_access) || exit 2
timeout 120 "$t/demo" "$t"
"""
LIB = """#!/bin/bash
# exit 0: the property holds on this input
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
# the library needs a newer abseil than this system has: ./shim stands in for it
s=("$d/demo.cc")
for f in nsasm/*.cc; do case $f in *_test.cc) ;; *) s+=("$f") ;; esac; done
export CXXFLAGS="-std=c++20 -g -I$d/shim -include $d/shim/prelude.h -iquote ."
printf '%%s\\n' "${s[@]}" | xargs -P 8 -I{} sh -c 'g++ $CXXFLAGS -c "$1" -o "$2/$(basename "$1" .cc).o"' _ {} "$t" || exit 2
g++ "$t"/*.o -o "$t/demo" || exit 2
timeout 120 "$t/demo" "$t"
"""


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def undo():
    sh("git", "-C", "/repo", "checkout", "--", ".")


def demo(d):
    p = sh("bash", f"{d}/demo.sh", cwd="/repo")
    return p.returncode, (p.stdout + p.stderr)[-600:]


def build_and_test():
    p = sh("bash", "/opt/vp/build.sh")
    if p.returncode:
        return "build failed " + (p.stdout + p.stderr)[-800:]
    out = f"/tmp/seed-{os.getpid()}.json"
    sh("bash", "/opt/vp/test.sh", out)
    r = json.load(open(out))
    os.unlink(out)
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = base if isinstance(base, list) else base.get("passed") or base.get("stable") or base.get("tests")
    missing = [n for n in names if n not in r["passed"]] if names else r["failed"]
    return f"tests fail: {missing}" if missing else None


def verify(d):
    undo()
    err = []
    b = build_and_test()
    if b:
        return [f"clean tree: {b}"]
    c, o = demo(d)
    if c != 0:
        err.append(f"demo on clean tree exits {c}: {o}")
    p = sh("git", "-C", "/repo", "apply", f"{d}/patch.diff")
    if p.returncode:
        return err + ["does not apply: " + p.stderr]
    try:
        b = build_and_test()
        if b:
            err.append(b)
        c, o = demo(d)
        if c == 0:
            err.append("demo passes with the patch")
        elif "error:" in o:
            err.append("demo does not compile with the patch: " + o)
    finally:
        undo()
        sh("bash", "/opt/vp/build.sh")
    return err


def attempt(d, props):
    p = sh("git", "-C", "/repo", "apply", f"{d}/patch.diff")
    if p.returncode:
        print("does not apply", p.stderr)
        return
    try:
        for q in props:
            r = sh("python3", f"{ROOT}/vf/check.py", q, cwd=ROOT, env={**os.environ, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
            hit = f"VIOLATION property={q}" in r.stdout
            keys = [l[4:70] for l in r.stdout.splitlines() if l.startswith("--- ") and "(case" in l]
            tot = r.stdout.splitlines()[0][-60:] if r.stdout else ""
            print(f"  {os.path.basename(d)} {q}: exit {r.returncode} {'CAUGHT' if hit and r.returncode == 1 else 'missed'} {keys[:4]} {tot}")
            if r.returncode not in (0, 1):
                print(r.stdout[-1500:], r.stderr[-800:])
    finally:
        undo()


def main():
    a = sys.argv[1:]
    if a[0] in ("--try", "--verify"):
        d = f"{ROOT}/seeded/{a[1]}"
        if a[0] == "--verify":
            print(a[1], verify(d) or "ok")
        else:
            attempt(d, a[2:] or [json.load(open(f"{d}/meta.json"))["property"]])
        return
    sid, prop, needs, breaks, cc, *units = a
    d = f"{ROOT}/seeded/{sid}"
    os.makedirs(d, exist_ok=True)
    diff = sh("git", "-C", "/repo", "diff").stdout
    if not diff:
        sys.exit("no edit in /repo")
    open(f"{d}/patch.diff", "w").write(diff)
    undo()
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    if cc.endswith(".sh"):
        shutil.copy(cc, f"{d}/demo.sh")
    else:
        shutil.copy(cc, f"{d}/demo.cc")
        if units == ["lib"]:
            shutil.copytree(f"{ROOT}/shim", f"{d}/shim", dirs_exist_ok=True)
            open(f"{d}/demo.sh", "w").write(LIB.replace("%%", "%"))
        else:
            open(f"{d}/demo.sh", "w").write(SYS % " ".join(f"nsasm/{u}.cc" for u in units))
    os.chmod(f"{d}/demo.sh", 0o755)
    e = verify(d)
    print(sid, e or "verified")
    if not e:
        attempt(d, [prop])


main()
