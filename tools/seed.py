#!/usr/bin/env python3
"""seed.py ID PROPERTY DEMO.rs NEEDS BREAKS [--template core|...]: turn the edits in /tmp/seedrepo into /verif/seeded/ID, if they qualify."""
import json, os, shutil, subprocess, sys
from pathlib import Path
sid, prop, demo, needs, breaks = sys.argv[1:6]
tpl = sys.argv[7] if len(sys.argv) > 7 else "core"
S = Path("/verif/seeded") / sid
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
diff = sh("git -C /tmp/seedrepo diff").stdout
assert diff.strip(), "no edit"
S.mkdir(parents=True, exist_ok=True)
(S / "patch.diff").write_text(diff)
SH = """#!/bin/bash
# exit 0: the property holds on the demonstrated input; 1: it is broken
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/demo.XXXXXX)
trap 'find "$d" -delete' EXIT
"""
if tpl == "bin":
    # a python script that runs /repo/target/debug/brack in the scratch folder it is given
    shutil.copy(demo, S / "demo.py")
    (S / "demo.sh").write_text(SH + 'cd "$d" && timeout 280 python3 "$here/demo.py" "$d" /repo/target/debug/brack\n')
else:
    d = S / "demo" / "main"
    (d / "src").mkdir(parents=True, exist_ok=True)
    shutil.copy(demo, d / "src/main.rs")
    src = Path("/verif/harness") / tpl
    cargo = (src / "Cargo.toml").read_text().replace(f"{tpl}-harness", "demo").split("[profile")[0]
    lock = (src / "Cargo.lock").read_text().replace(f'name = "{tpl}-harness"', 'name = "demo"')
    for extra in ("shims", "common"):
        if f"../{extra}" in cargo:
            shutil.copytree(src.parent / extra, d.parent / extra, dirs_exist_ok=True, ignore=shutil.ignore_patterns("target"))
    (d / "Cargo.toml").write_text(cargo)
    (d / "Cargo.lock").write_text(lock)
    (S / "demo.sh").write_text(SH + '''cp -r "$here/demo/." "$d/"
cd "$d/main" && CARGO_TARGET_DIR="$d/target" RUST_BACKTRACE=0 timeout 280 cargo run -q --offline
''')
(S / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1))
def demo_run():
    r = sh(f"bash {S}/demo.sh", cwd="/repo")
    return r.returncode, (r.stdout + r.stderr)[-600:]
assert sh("git -C /repo status --porcelain").stdout == "", "repo dirty"
if tpl == "bin":
    sh("bash /opt/vp/build.sh")
rc0, o0 = demo_run()
print("demo on the unchanged tree:", rc0, o0 if rc0 else "")
ok = rc0 == 0
if not ok:
    sys.exit(1)
try:
    a = sh(f"git -C /repo apply {S}/patch.diff")
    print("apply:", a.returncode, a.stderr)
    b = sh("bash /opt/vp/build.sh")
    print("build:", b.returncode, b.stderr[-800:] if b.returncode else "")
    t = sh("bash /opt/vp/test.sh /tmp/seed-test.json")
    base = json.load(open("/opt/vp/BASELINE.json"))
    res = json.load(open("/tmp/seed-test.json"))
    stable = base.get("stable") or base.get("passing") or base
    def names(x):
        if isinstance(x, dict):
            for k in ("pass", "passed", "stable", "tests"):
                if k in x:
                    return names(x[k])
            return {k for k, v in x.items() if v in ("pass", "passed", "ok", True)}
        return {y if isinstance(y, str) else y.get("name") for y in x}
    missing = names(stable) - names(res)
    print("stable tests lost:", missing)
    rc1, o1 = demo_run()
    print("demo with the patch:", rc1, o1)
    ok = ok and a.returncode == 0 and b.returncode == 0 and not missing and rc1 != 0
    if ok and "--nocheck" not in sys.argv:
        c = sh(f"python3 check.py {prop}", cwd="/verif")
        print("check:", c.returncode, c.stdout[-1500:], c.stderr[-500:])
finally:
    sh("git -C /repo checkout -- .")
print("QUALIFIES" if ok else "DOES NOT QUALIFY")
sh("git -C /tmp/seedrepo checkout -- .")
if tpl == "bin":
    sh("bash /opt/vp/build.sh")
sys.exit(0 if ok else 1)
