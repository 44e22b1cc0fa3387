#!/usr/bin/env python3
"""Builds every harness and tool once, so that the checks start from a warm cache."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from table import PROPS, TOOLS


def spec(prop, flavour=None):
    s = PROPS[prop]
    fl = flavour or s.get("flavour", "shim")
    return s["exe"], dict(sources=[f"{B.ROOT}/h/{x}" for x in s["src"]], flavour=fl, extra=s.get("extra", ()), ldextra=s.get("ld", ()))


def main():
    bad = 0
    for p in PROPS:
        exe, kw = spec(p)
        try:
            B.build(exe, **kw)
            if PROPS[p].get("plain"):
                B.build("plain_" + exe, san=False, **kw)
        except B.BuildError as e:
            print(f"{exe}: {str(e)[:2000]}")
            bad = 1
    for t in sorted({t for s in PROPS.values() for t in s.get("tools", [])}):
        try:
            B.build("tool_" + t, [f"{B.REPO}/util/{t}.cc"], flavour=TOOLS[t].get("flavour", "shim"))
        except B.BuildError as e:
            print(f"{t}: {str(e)[:2000]}")
            bad = 1
    print("setup done" if not bad else "setup incomplete")
    sys.exit(bad)


main()
