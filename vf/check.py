#!/usr/bin/env python3
"""Runs the check of one property: build, drive, observe, judge, record.

usage: check.py PROPERTY [--tier quick|thorough] [--replay FILE] [--cases N] [--seed N]
"""
import argparse
import concurrent.futures as cf
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from table import PROPS, TOOLS

ROOT = B.ROOT
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:handle_abort=1:symbolize=1:detect_stack_use_after_return=1:"
                    "hard_rss_limit_mb=3500:allocator_may_return_null=0:print_summary=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:print_summary=1",
    "LC_ALL": "C", "TZ": "UTC",
}


def fail(msg):
    print(f"check error: {msg}")
    sys.exit(3)


def signature(err, code):
    """A short key for how the code under test died."""
    m = re.search(r"([^\s:]+/)?([\w.]+):(\d+): .*Assertion `(.*?)' failed", err)
    if m:
        return f"assert:{m[2]}:{m[4][:80]}"
    m = re.search(r"([\w.]+):\d+:\d+: runtime error: ([^\n]{0,160})", err)
    if m:
        return f"ub:{m[1]}:" + re.sub(r"-?\b(0x)?[0-9a-f]*\d[0-9a-f]*\b", "N", m[2])[:80]
    m = re.search(r"SUMMARY: \w+Sanitizer: (\S+)(?: \S+)?(?: in ([\w:~<>]+))?", err)
    frames = re.findall(r"#\d+ 0x\w+ in (nsasm::[\w:~]+)", err)
    if m:
        return f"san:{m[1]}:{frames[0] if frames else m[2] or '?'}"
    m = re.search(r"terminate called after throwing an instance of '([^']+)'", err)
    if m:
        return f"throw:{m[1]}"
    if "HARD RSS" in err.upper():
        return "memory"
    return f"died:{code}"


class Shard:
    def __init__(self, exe, prop, spec, seed, tier, cases, scratch, k, n, bins):
        self.exe, self.prop, self.spec, self.seed, self.tier = exe, prop, spec, seed, tier
        self.cases, self.scratch, self.k, self.n, self.bins = cases, scratch, k, n, bins
        self.violations, self.samples, self.counts, self.seen = [], [], {}, {}
        self.evals = 0
        self.distinct = set()
        self.errors = []
        self.inconclusive = 0

    def launch(self, start=0, only=None, cpu=None, tag="r"):
        out = f"{self.scratch}/s{self.k}{tag}"
        work = f"{out}.d"
        os.makedirs(work, exist_ok=True)
        cmd = [self.exe, "--prop", self.prop, "--out", out, "--scratch", work, "--seed", str(self.seed),
               "--cases", str(self.cases), "--shard", str(self.k), "--shards", str(self.n),
               "--from", str(start), "--thorough", "1" if self.tier == "thorough" else "0",
               "--cpu", str(cpu or self.spec.get("cpu", 20)), "--data", f"{ROOT}/data"]
        if self.bins:
            cmd += ["--bin", self.bins]
        if only is not None:
            cmd += ["--only", str(only)]
        with open(f"{out}.stderr", "wb") as e, open(f"{out}.stdout", "wb") as o:
            p = subprocess.run(cmd, stdout=o, stderr=e, stdin=subprocess.DEVNULL, env={**os.environ, **SAN_ENV}, cwd=work)
        with open(f"{out}.stderr", "rb") as e:
            err = e.read().decode("utf-8", "replace")
        case, index = "", None
        try:
            with open(f"{out}.case", "rb") as f:
                raw = f.read().split(b"\0", 1)[0].decode("utf-8", "replace")
            first, _, case = raw.partition("\n")
            index = int(first)
        except (OSError, ValueError):
            pass
        self.absorb(out)
        return p.returncode, err, index, case

    def absorb(self, out):
        try:
            with open(f"{out}.jsonl") as f:
                for line in f:
                    try:
                        d = json.loads(line)
                    except ValueError:
                        continue
                    if d["t"] == "v":
                        self.violations.append(d)
                    elif d["t"] == "s":
                        self.samples.append(d["case"])
                    elif d["t"] == "c":
                        self.evals += d["evaluations"]
                        for a, b in d["counts"].items():
                            self.counts[a] = self.counts.get(a, 0) + b
                        for a, b in d["seen"].items():
                            self.seen.setdefault(a, set()).update(b)
            with open(f"{out}.distinct", "rb") as f:
                raw = f.read()
            self.distinct.update(raw[i:i + 8] for i in range(0, len(raw), 8))
        except OSError:
            pass

    def run(self):
        start, deaths = 0, 0
        while True:
            code, err, index, case = self.launch(start, tag=f"r{deaths}")
            if code == 0:
                return
            if code == 64 or index is None or index < 0:
                self.errors.append(f"harness failed (exit {code}): {err[-1500:]}")
                return
            # The process died in the code under test: once more, alone.
            hang = code == 99
            code2, err2, _, case2 = self.launch(0, only=index, cpu=3 * self.spec.get("cpu", 20), tag=f"x{deaths}")
            if code2 == 0:
                self.inconclusive += 1
                if not hang and code != -signal.SIGKILL:
                    # Not repeatable alone: state left by earlier cases matters.
                    self.violations.append({"index": index, "key": "crash:" + signature(err, code), "case": case,
                                            "detail": err[:3000], "history": True, "start": start})
            elif code2 == 64:
                self.errors.append(f"harness failed: {err2[-1500:]}")
                return
            else:
                key = "hang" if code2 == 99 else "crash:" + signature(err2, code2)
                self.violations.append({"index": index, "key": key, "case": case2 or case, "detail": err2[:4000]})
                if key == "hang":
                    deaths += 2  # each takes a while
            deaths += 1
            if deaths >= 6:
                return
            start = index + 1


def known_findings(prop):
    with open(f"{ROOT}/known_findings.json") as f:
        d = json.load(f)
    return [x for x in d.get("findings", []) if x["property"] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--seed", type=int)
    ap.add_argument("--shards", type=int)
    ap.add_argument("--tier", choices=("quick", "thorough"))
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    spec = PROPS[prop]
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    cases = a.cases or spec[tier]
    only = None
    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
        seed, tier, cases, only = rp["seed"], rp["tier"], rp["cases"], rp["index"]

    def build_all(flavour):
        specs = {spec["exe"]: dict(sources=[f"{ROOT}/h/{s}" for s in spec["src"]], flavour=flavour,
                                   extra=spec.get("extra", ()), ldextra=spec.get("ld", ()))}
        if spec.get("plain"):
            specs["plain_" + spec["exe"]] = dict(specs[spec["exe"]], san=False)
        for t in spec.get("tools", []):
            fl = flavour if TOOLS[t].get("flavour") == "sys" else "shim"
            specs["tool_" + t] = dict(sources=[f"{B.REPO}/util/{t}.cc"], flavour=fl)
        return B.build_many(specs)

    flavour = spec.get("flavour", "shim")
    try:
        try:
            exes = build_all(flavour)
        except OSError as e:
            print(f"build: {e!r}, once more")
            time.sleep(1)
            exes = build_all(flavour)
    except B.BuildError as e:
        if flavour != "sys":
            fail(f"build failed:\n{e}")
        try:
            exes = build_all("shim")
        except B.BuildError as e2:
            fail(f"build failed:\n{e}\n{e2}")
    built = time.time()

    scratch = tempfile.mkdtemp(prefix=f"vf-{prop}-")
    bins = None
    try:
        if spec.get("tools"):
            bins = f"{scratch}/bin"
            os.makedirs(bins)
            for t in spec["tools"]:
                os.symlink(exes["tool_" + t], f"{bins}/{t}")
            for e in exes:
                if e.startswith("plain_"):
                    os.symlink(exes[e], f"{bins}/{e}")
        n = a.shards or (1 if only is not None else min(B.JOBS, 8))
        shards = [Shard(exes[spec["exe"]], prop, spec, seed, tier, cases, scratch, k, n, bins) for k in range(n)]
        if only is not None:
            s = shards[0]
            code, err, index, case = s.launch(rp.get("start", 0), only=None if rp.get("history") else only)
            if code not in (0, 64):
                s.violations.append({"index": only, "key": "hang" if code == 99 else "crash:" + signature(err, code), "case": case, "detail": err[:4000]})
            for v in s.violations:
                print(f"index {v['index']} key {v['key']}\n--- case\n{v['case']}\n--- detail\n{v['detail']}")
            if code == 64:
                fail(err)
            print("replayed:", "violated" if s.violations else "no violation")
            sys.exit(1 if s.violations else 0)
        with cf.ThreadPoolExecutor(n) as ex:
            list(ex.map(lambda s: s.run(), shards))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    errors = [e for s in shards for e in s.errors]
    violations = sorted((v for s in shards for v in s.violations), key=lambda v: v["index"])
    counts, seen, distinct, evals, samples = {}, {}, set(), 0, []
    for s in shards:
        evals += s.evals
        distinct |= s.distinct
        samples += s.samples
        for k, v in s.counts.items():
            counts[k] = counts.get(k, 0) + v
        for k, v in s.seen.items():
            seen.setdefault(k, set()).update(v)

    findings = known_findings(prop)
    known = {f["key"]: f for f in findings if f.get("status") == "open"}
    real, hit = [], {}
    for v in violations:
        if v["key"] in known:
            hit[v["key"]] = v
        else:
            real.append(v)

    cov = {
        "evaluations": evals,
        "distinct_nontrivial": len(distinct),
        "rule": spec["rule"],
        "samples": samples[:6],
        "observed": dict(sorted(counts.items())),
        "observed_sets": {k: len(v) for k, v in sorted(seen.items())},
        "observed_items": {k: sorted(v)[:300] for k, v in sorted(seen.items()) if len(v) <= 300},
        "build_s": round(built - t0, 1),
        "inconclusive": sum(s.inconclusive for s in shards),
    }
    if spec.get("exhaustive"):
        cov["exhaustive"] = not violations and not errors
    os.makedirs(f"{ROOT}/evidence", exist_ok=True)
    with open(f"{ROOT}/evidence/{prop}.json.tmp", "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
                   "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
                   "violations": len(real)}, f, indent=1)
    os.replace(f"{ROOT}/evidence/{prop}.json.tmp", f"{ROOT}/evidence/{prop}.json")

    print(f"{prop}: {evals} evaluations, {len(distinct)} distinct, {len(real)} violations, "
          f"build {built - t0:.1f}s, total {time.time() - t0:.1f}s")
    for k, v in sorted(counts.items()):
        print(f"  {k}: {v}")
    for k, v in sorted(seen.items()):
        print(f"  {k}: {len(v)} distinct")
    for key, f in known.items():
        print(f"KNOWN-FINDING: property={prop} {f['what']}" + ("" if key in hit else " (not seen in this run)"))
    if real:
        rd = f"{ROOT}/evidence/replay"
        os.makedirs(rd, exist_ok=True)
        done = set()
        for v in real:
            if v["key"] in done:
                continue
            done.add(v["key"])
            if len(done) > 8:
                break
            path = f"{rd}/{prop}-{re.sub(r'[^A-Za-z0-9_.-]+', '_', v['key'])[:60]}.json"
            with open(path, "w") as f:
                json.dump({"property": prop, "seed": seed, "tier": tier, "cases": cases, "index": v["index"],
                           "key": v["key"], "case": v["case"], "detail": v["detail"], "history": v.get("history", False),
                           "start": v.get("start", 0), "how": f"python3 vf/check.py {prop} --replay {path}"}, f, indent=1)
            print(f"--- {v['key']} (case {v['index']})\n{v['case'][:1500]}\n{v['detail'][:1500]}")
            print(f"VIOLATION property={prop} replay={path}")
        sys.exit(1)
    if errors:
        fail(errors[0])
    missing = [k for k in spec.get("need", []) if not counts.get(k)]
    missing += [k for k, m in spec.get("need_seen", {}).items() if len(seen.get(k, ())) < m]
    if missing or not evals or len(distinct) < 1:
        fail(f"the run did not observe what it must: {missing}")
    sys.exit(0)


if __name__ == "__main__":
    main()
