#!/usr/bin/env python3
"""Builds the extractor and the harnesses once; every check builds what it still needs itself."""
import sys
from check import cargo_build, WORK
from props import PROPS
WORK.mkdir(exist_ok=True)
todo = {("vx", "target-vx")} | {(f"harness/{c['harness']}", f"target-{c['harness']}") for c in PROPS.values() if c.get("harness")}
for d, t in sorted(todo):
    ok, err = cargo_build(d, t)
    print(d, "built" if ok else err)
