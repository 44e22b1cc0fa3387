"""Builds harnesses against /repo's current working tree.

Objects are kept under /verif/.build, keyed by a hash of everything that goes
into them, so a changed source, header or flag is always rebuilt.
"""
import concurrent.futures as cf
import glob
import hashlib
import os
import subprocess
import sys
import threading

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
CACHE = os.path.join(ROOT, ".build")
JOBS = os.cpu_count() or 4

BASE = ["-std=c++20", "-g1", "-O1", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE",
        "-D_GLIBCXX_ASSERTIONS", "-Wno-attributes"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
SHIM = ["-I", os.path.join(ROOT, "shim"), "-include", os.path.join(ROOT, "shim", "prelude.h")]
SYS_UNITS = ["address", "error", "location", "memory", "mnemonic", "numeric_type", "ranges", "rom"]
ABSL = ["absl_str_format", "absl_strings", "absl_flat_hash_map", "absl_flat_hash_set", "absl_hash",
        "absl_bad_variant_access", "absl_bad_optional_access", "absl_inlined_vector", "absl_span",
        "absl_raw_hash_set"]


class BuildError(Exception):
    pass


def _digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        try:
            with open(p, "rb") as f:
                h.update(hashlib.sha256(f.read()).digest())
        except OSError:
            h.update(b"gone")
    return h.hexdigest()


def _headers():
    r = []
    for d in ("nsasm", "test", "util"):
        r += glob.glob(f"{REPO}/{d}/**/*.h", recursive=True)
        r += glob.glob(f"{REPO}/{d}/**/*.inc", recursive=True)
    return r


_memo = {}
_lock = threading.Lock()


def _env_digest():
    with _lock:
        if "env" not in _memo:
            own = glob.glob(f"{ROOT}/shim/**/*.h", recursive=True) + glob.glob(f"{ROOT}/h/*.h")
            _memo["env"] = _digest(own) + _digest(_headers())
        return _memo["env"]


def _compile(src, flags):
    key = hashlib.sha256("\0".join([_digest([src]), _env_digest(), *flags]).encode()).hexdigest()[:32]
    obj = f"{CACHE}/obj/{key}.o"
    if os.path.exists(obj):
        os.utime(obj)
        return obj, None
    tmp = f"{obj}.{os.getpid()}.tmp"
    p = subprocess.run(["g++", *flags, "-iquote", REPO, "-iquote", ROOT, "-c", src, "-o", tmp],
                       capture_output=True, text=True)
    if p.returncode:
        if os.path.exists(tmp):
            os.unlink(tmp)
        return None, f"{src}:\n{p.stderr[:4000]}"
    os.replace(tmp, obj)
    return obj, None


def _prune(keep=600):
    objs = glob.glob(f"{CACHE}/obj/*")
    if len(objs) > keep:
        objs.sort(key=lambda p: os.path.getmtime(p) if os.path.exists(p) else 0)
        for p in objs[:-keep]:
            try:
                os.unlink(p)
            except OSError:
                pass


def lib_sources(flavour):
    allsrc = [s for s in glob.glob(f"{REPO}/nsasm/**/*.cc", recursive=True) if not s.endswith("_test.cc")]
    if flavour == "sys":
        return [s for s in allsrc if os.path.basename(s)[:-3] in SYS_UNITS]
    return allsrc


def flags_for(flavour, san=True, extra=()):
    f = list(BASE) + (SAN if san else ["-O2"])
    if flavour == "shim":
        f += SHIM
    return f + list(extra)


def build(out, sources, flavour="shim", san=True, extra=(), ldextra=(), lib=None):
    """Links `sources` with the library of /repo into CACHE/bin/<out>."""
    os.makedirs(f"{CACHE}/obj", exist_ok=True)
    os.makedirs(f"{CACHE}/bin", exist_ok=True)
    flags = flags_for(flavour, san, extra)
    srcs = list(sources) + (lib_sources(flavour) if lib is None else lib)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda s: _compile(s, flags), srcs))
    errs = [e for _, e in res if e]
    if errs:
        raise BuildError("\n".join(errs[:3]))
    objs = [o for o, _ in res]
    key = hashlib.sha256("\0".join([*objs, *flags, *ldextra]).encode()).hexdigest()[:16]
    exe = f"{CACHE}/bin/{out}-{key}"
    if not os.path.exists(exe):
        libs = []
        if flavour == "sys":
            p = subprocess.run(["pkg-config", "--libs", *ABSL], capture_output=True, text=True)
            if p.returncode:
                raise BuildError(p.stderr)
            libs = p.stdout.split()
        tmp = f"{exe}.{os.getpid()}.tmp"
        p = subprocess.run(["g++", *(SAN if san else []), "-o", tmp, *objs, *ldextra, *libs], capture_output=True, text=True)
        if p.returncode:
            raise BuildError(p.stderr[:4000])
        os.replace(tmp, exe)
        for old in glob.glob(f"{CACHE}/bin/{out}-*"):
            if old != exe and not old.endswith(".tmp"):
                try:
                    os.unlink(old)
                except OSError:
                    pass
    _prune()
    return exe


def build_many(specs):
    """specs: {name: kwargs}. Compiles everything in one pool, then links."""
    with cf.ThreadPoolExecutor(max(1, len(specs))) as ex:
        fut = {n: ex.submit(build, n, **kw) for n, kw in specs.items()}
        return {n: f.result() for n, f in fut.items()}


if __name__ == "__main__":
    print(lib_sources("shim"), file=sys.stderr)
