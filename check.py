#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]

Decides one property of /repo's current source: extract the functions under contract (vx), let Verus
discharge every obligation, and run the compiled code against the property's reference (harness).
Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 2: no answer."""
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, threading, time
from pathlib import Path

ROOT = Path(__file__).resolve().parent
REPO = Path("/repo")
WORK = ROOT / "work"
EVID = ROOT / "evidence"
sys.path.insert(0, str(ROOT))
from props import PROPS  # noqa: E402

T0 = time.time()
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
LIMIT = 780 if TIER == "quick" else 3300


def env(**kw):
    e = dict(os.environ)
    e["RUST_BACKTRACE"] = "0"
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("CARGO_BUILD_TARGET_DIR", None)
    e.update({k: str(v) for k, v in kw.items()})
    return e


def log(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, flush=True)


def cargo_build(dirname, target, profile="release"):
    p = subprocess.run(["cargo", "build", "--release", "--offline", "--quiet"], cwd=ROOT / dirname,
                       env=env(CARGO_TARGET_DIR=WORK / target), capture_output=True, text=True, timeout=600)
    return p.returncode == 0, p.stderr[-6000:]


# ---------------------------------------------------------------- dictionary
def mine(crates, path):
    words, ints = {}, {}
    for c in crates:
        for f in sorted((REPO / "crates" / c).rglob("*.rs")):
            if "/target/" in str(f) or "/tests/" in str(f):
                continue
            t = f.read_text(errors="replace")
            t = re.sub(r"(?m)^\s*//.*$", "", t)
            cut = t.find("#[cfg(test)]")
            if cut >= 0:
                t = t[:cut]
            for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', t):
                s = m.group(1)
                s = re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda k: chr(int(k.group(1), 16)), s)
                s = s.replace('\\"', '"').replace("\\'", "'")
                if 0 < len(s) <= 14:
                    words[s] = 1
            for m in re.finditer(r"'((?:[^'\\\n]|\\[^u]|\\u\{[0-9a-fA-F]+\}))'", t):
                s = m.group(1)
                s = re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda k: chr(int(k.group(1), 16)), s)
                words[s.replace("\\'", "'")] = 1
            for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|[0-9][0-9_]*)(?:_?[iu](?:8|16|32|64|size))?\b", t):
                try:
                    n = int(m.group(1).replace("_", ""), 0)
                except ValueError:
                    continue
                if 1 < n <= 1 << 20:
                    ints[n] = 1
    with open(path, "w") as o:
        for w in list(words)[:200]:
            o.write("s " + w.replace("\n", "\\n") + "\n")
        for n in list(ints)[:60]:
            o.write(f"i {n}\n")


# ---------------------------------------------------------------- proof
class Proof:
    """status: proved | failed | undecided"""

    def __init__(self, unit):
        self.unit = unit
        self.status = "undecided"
        self.why = ""
        self.failed = []
        self.functions = []
        self.notes = []
        self.adrift = []
        self.trusted = []
        self.obligations = self.discharged = 0
        self.smt_ms = 0
        self.clauses = 0
        self.vacuity = None
        self.cmd = ""
        self.text = ""

    def run(self, dirp):
        vx = WORK / "target-vx/release/vx"
        name = re.sub(r"\W", "_", self.unit)
        src, rep = dirp / f"{name}.rs", dirp / f"{name}.json"
        vac, vrep = dirp / f"{name}_v.rs", dirp / f"{name}_v.json"
        uf = ROOT / "units" / f"{self.unit}.vx"
        for o, r, extra in ((src, rep, []), (vac, vrep, ["--vacuity"])):
            p = subprocess.run([vx, uf, o, r, *extra], capture_output=True, text=True, timeout=120)
            if p.returncode != 0 or not r.exists():
                self.why = "the extraction fails: " + p.stderr[-500:]
                return
        report = json.loads(rep.read_text())
        self.functions = [f for f in report["functions"]]
        if report["lost"]:
            self.why = "a function or anchor under contract is gone: " + "; ".join(report["lost"])
            return
        self.notes = report["notes"]
        # hints written for another shape of the code: a proof that fails then says nothing about the code
        self.adrift = report["unplaced"] + report["notes"]
        text = src.read_text()
        self.text = text
        self.trusted = trusted_items(text)
        self.clauses = count_clauses(text)
        vres = {}
        th = threading.Thread(target=lambda: vres.update(run_verus(vac, dirp, ["--multiple-errors", "60"], 120)))
        th.start()
        r = run_verus(src, dirp, ["--multiple-errors", "4", "--time-expanded"])
        th.join()
        self.cmd = r["cmd"]
        if r.get("timeout"):
            self.why = "the verifier ran out of time"
            return
        j = r["json"]
        vr = (j or {}).get("verification-results")
        if not vr or vr.get("encountered-vir-error") or "verified" not in vr or (r["compile_errors"] and not r["obligation_errors"]):
            self.why = "the extracted code is outside the verifier's reach: " + (r["compile_errors"] or "".join(e["rendered"] for e in r["errors"]) or r["stderr"])[-1500:]
            return
        self.obligations = vr["verified"] + vr["errors"]
        self.discharged = vr["verified"]
        self.smt_ms = j.get("times-ms", {}).get("smt", {}).get("smt-run", 0)
        if vr["errors"] == 0 and vr["success"]:
            n = len(re.findall(r"/\*vacuity", vac.read_text()))
            got = vres.get("vacuous_failures", 0)
            self.vacuity = {"probes": n, "refuted_as_they_must_be": got}
            if vres.get("timeout"):
                # the solver is still looking for a proof of some probe: not accepted, not refuted
                self.vacuity["undetermined"] = n - got
            elif n and got < n:
                self.why = f"a contract became vacuous: {n - got} of {n} probes `assert(probe)` are accepted"
                return
            self.status = "proved"
            return
        self.failed = [locate(e, self.functions) for e in r["errors"] if not e["rlimit"]]
        if any(e["rlimit"] for e in r["errors"]) and not self.failed:
            self.why = "the solver gave up (resource limit)"
            return
        if self.adrift:
            self.why = "the contracts are not proved of code of this shape (" + "; ".join(self.adrift[:3]) + "): " + "; ".join(f"{f['function']}: {f['message']}" for f in self.failed[:3])
            return
        self.status = "failed"
        self.why = "; ".join(f"{f['function']}: {f['message']}" for f in self.failed[:4])


def group(cmd, seconds, **kw):
    """subprocess.run that ends the whole process group (Verus leaves its solver behind)"""
    q = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True, **kw)
    try:
        out, err = q.communicate(timeout=seconds)
    except subprocess.TimeoutExpired:
        os.killpg(q.pid, signal.SIGKILL)
        q.communicate()
        raise
    return subprocess.CompletedProcess(cmd, q.returncode, out, err)


def run_verus(file, dirp, extra, seconds=240):
    cmd = ["verus", str(file), "--output-json", "--error-format=json", "--rlimit", "60", *extra]
    e = env()
    try:
        p = group(cmd, seconds, cwd=dirp, env=e)
    except subprocess.TimeoutExpired:
        return {"cmd": " ".join(cmd), "timeout": True, "json": None, "errors": [], "stderr": "", "compile_errors": "", "obligation_errors": False}
    out = {"cmd": " ".join(cmd), "stderr": "", "errors": [], "compile_errors": "", "obligation_errors": False, "vacuous_failures": 0}
    try:
        out["json"] = json.loads(p.stdout[p.stdout.index("{"):])
    except ValueError:
        out["json"] = None
    vac = 0
    for line in p.stderr.splitlines():
        if not line.startswith("{"):
            out["stderr"] += line + "\n"
            continue
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if d.get("level") != "error" or d["message"].startswith("aborting"):
            continue
        spans = [(s["line_start"], s.get("label") or "", " ".join(t["text"].strip() for t in s.get("text", [])[:2])[:300]) for s in d.get("spans", [])]
        e = {"message": d["message"], "spans": spans, "rendered": d.get("rendered", "")[:4000], "rlimit": "rlimit" in d["message"].lower() or "resource limit" in d["message"].lower()}
        if d["message"] == "assertion failed" and any("vacuity" in s[2] for s in spans):
            vac += 1
        if d.get("code"):
            out["compile_errors"] += d.get("rendered", d["message"]) + "\n"
        else:
            out["obligation_errors"] = True
        out["errors"].append(e)
    out["vacuous_failures"] = vac
    if not out["json"]:
        out["compile_errors"] += "".join(e["rendered"] for e in out["errors"]) or p.stdout[-500:]
    return out


def locate(e, functions):
    fn = "lemma or glue"
    for line, _, _ in e["spans"]:
        for f in functions:
            if f["first"] <= line <= f["last"]:
                fn = f["key"]
    return {"function": fn, "message": e["message"] + "".join(f" [{l}: {t}]" if l else "" for _, l, t in e["spans"]), "output": e["rendered"]}


def trusted_items(text):
    out = []
    lines = text.split("\n")
    for i, l in enumerate(lines):
        if re.search(r"external_body|assume_specification|\bassume\s*\(|\badmit\s*\(|#\[verifier::external|external_type_specification", l):
            for k in range(i, min(i + 6, len(lines))):
                m = re.search(r"(?:fn|struct|enum|trait)\s+(\w+)|assume_specification\s*(?:<[^>]*>)?\s*\[([^\]]*)\]", lines[k])
                if m:
                    out.append((m.group(1) or m.group(2)).strip())
                    break
            else:
                out.append(l.strip()[:100])
        for m in re.finditer(r"\baxiom\s+fn\s+(\w+)", l):
            out.append("axiom " + m.group(1))
    return sorted(set(out))


def count_clauses(text):
    return len(re.findall(r"(?m)^\s*(?:requires|ensures|invariant|decreases)\b", text))


# ---------------------------------------------------------------- harness
class Harness:
    def __init__(self, cfg, prop):
        self.dir, self.prop = cfg, prop
        self.evaluations = self.nontrivial = 0
        self.extra = {}
        self.samples = []
        self.failure = None
        self.ok = True
        self.note = ""

    def bin(self):
        return WORK / f"target-{self.dir}/release/{self.dir}-harness"

    def limits(self):
        resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    def run(self, dirp, seed, budget_ms, dic):
        if self.failure or not self.ok:
            return
        state = dirp / f"state-{seed}"
        scratch = dirp / f"scratch-{seed}"
        scratch.mkdir(exist_ok=True)
        cmd = [self.bin(), self.prop, str(seed), str(budget_ms), dic, state]
        try:
            p = subprocess.run(cmd, cwd=scratch, env=env(TMPDIR=scratch, HARNESS_TIER=TIER), capture_output=True, text=True, timeout=budget_ms / 1000 + 90, preexec_fn=self.limits)
            rc, out = p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            rc, out = 97, ""
        if rc == 0 and out.strip().splitlines()[-1:] and out.strip().splitlines()[-1].startswith("{"):
            d = json.loads(out.strip().splitlines()[-1])
            self.evaluations += d["evaluations"]
            self.nontrivial += d["distinct_nontrivial"]
            self.samples += d.get("samples", [])
            for k, v in d.items():
                if k not in ("evaluations", "distinct_nontrivial", "samples", "failure"):
                    self.extra[k] = v
            if d["failure"]:
                self.failure = d["failure"]
            return
        # the process died or hung: the input it was on is in the state file
        try:
            raw = state.read_bytes()
            n, rest = raw.split(b"\n", 1)
            src = rest[: int(n)].decode("utf-8", "replace")
        except (OSError, ValueError):
            self.ok = False
            self.note = f"the harness ended with status {rc} and left no input: {p.stderr[-300:] if rc != 97 else 'timeout'}"
            return
        f = dirp / "crash.txt"
        f.write_text(src, newline="")
        try:
            q = subprocess.run([self.bin(), self.prop, "--replay", f], cwd=scratch, env=env(TMPDIR=scratch), capture_output=True, text=True, timeout=60, preexec_fn=self.limits)
            bad, how = q.returncode != 0, q.stdout.strip() or f"the process ends with status {q.returncode}"
        except subprocess.TimeoutExpired:
            bad, how = True, "the code does not end within 60 s"
        if bad:
            self.failure = {"input": src, "what": how}
        else:
            self.ok = False
            self.note = f"the harness ended with status {rc}; its last input alone does not fail"


# ---------------------------------------------------------------- known findings
def known(prop):
    out = []
    f = ROOT / "known-findings.txt"
    for l in f.read_text().splitlines() if f.exists() else []:
        if l.startswith("known: "):
            d = json.loads(l[len("known: "):])
            if d["property"] == prop:
                out.append(d)
    return out


def main():
    prop = sys.argv[1]
    cfg = PROPS[prop]
    WORK.mkdir(exist_ok=True)
    EVID.mkdir(exist_ok=True)
    (EVID / "replays").mkdir(exist_ok=True)
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return replay(prop, cfg, sys.argv[3])
    dirp = WORK / f"run-{prop}-{os.getpid()}"
    dirp.mkdir(parents=True, exist_ok=True)
    try:
        return decide(prop, cfg, dirp)
    finally:
        shutil.rmtree(dirp, ignore_errors=True)


def replay(prop, cfg, path):
    d = json.loads(Path(path).read_text())
    if "input" not in d:
        print(d.get("verifier_output", ""))
        return 1
    ok, err = cargo_build(f"harness/{cfg['harness']}", f"target-{cfg['harness']}")
    if not ok:
        print(err)
        return 2
    f = WORK / "replay.txt"
    f.write_text(d["input"], newline="")
    return subprocess.run([Harness(cfg["harness"], prop).bin(), prop, "--replay", f], env=env()).returncode


def decide(prop, cfg, dirp):
    builds = {}

    def b(key, d, t):
        try:
            builds[key] = cargo_build(d, t)
        except subprocess.TimeoutExpired:
            builds[key] = (False, "the build ran out of time")

    ths = []
    units = cfg.get("units", [])
    if units:
        ths.append(threading.Thread(target=b, args=("vx", "vx", "target-vx")))
    hn = cfg.get("harness")
    if hn:
        ths.append(threading.Thread(target=b, args=("h", f"harness/{hn}", f"target-{hn}")))
    [t.start() for t in ths]
    [t.join() for t in ths]
    log("built", {k: v[0] for k, v in builds.items()})
    proofs = [Proof(u) for u in units]
    h = Harness(hn, prop) if hn else None
    if h and not builds["h"][0]:
        h.ok = False
        h.note = "the harness does not build against this tree: " + builds["h"][1][-1500:]
    dic = dirp / "dict"
    mine(cfg.get("mine", []), dic)
    budget = cfg.get("budget_ms", 12000) if TIER == "quick" else cfg.get("thorough_ms", 240000)

    def prove():
        for p in proofs:
            if not builds["vx"][0]:
                p.why = "the extractor does not build: " + builds["vx"][1][-500:]
                continue
            p.run(dirp)
            log("unit", p.unit, p.status, p.why[:600])

    th = threading.Thread(target=prove)
    th.start()
    if h and h.ok:
        h.run(dirp, SEED, budget, dic)
        log("harness", h.evaluations, "evaluations", h.failure or h.note or "no failure")
    th.join()
    bad = [p for p in proofs if p.status == "failed"]
    undecided = [p for p in proofs if p.status == "undecided"]
    if h and h.ok and not h.failure and (bad or undecided):
        # look longer for an input that shows it
        seeds = range(SEED + 1000, SEED + 1006)
        hs = [Harness(hn, prop) for _ in seeds]
        more = min(cfg.get("extra_ms", 40000), max(5000, int((LIMIT - (time.time() - T0)) * 500)))
        tt = [threading.Thread(target=x.run, args=(dirp, s, more, dic)) for x, s in zip(hs, seeds)]
        [t.start() for t in tt]
        [t.join() for t in tt]
        for x in hs:
            h.evaluations += x.evaluations
            h.nontrivial += x.nontrivial
            h.failure = h.failure or x.failure
            if not x.ok:
                h.note = x.note
        log("longer search", h.evaluations, "evaluations", h.failure or "no failure")

    violation, tail, exitcode = None, "", 0
    ks = known(prop)
    if h and h.failure:
        m = [k for k in ks if k["input"] == h.failure["input"]]
        if not m:
            violation = {"property": prop, "input": h.failure["input"], "what": h.failure["what"],
                         "replay": f"python3 check.py {prop} --replay <this file>"}
            if bad:
                violation["failed_obligations"] = [f for p in bad for f in p.failed][:10]
    elif bad:
        violation = {"property": prop, "failed_obligations": [{k: f[k] for k in ("function", "message")} for p in bad for f in p.failed][:10],
                     "verifier_output": "\n".join(f["output"] for p in bad for f in p.failed)[:20000],
                     "note": "the verifier gives no counterexample; the search over inputs found none"}
        tail = " no-failing-input-found"
    for k in ks:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if violation:
        path = EVID / "replays" / f"{prop}.json"
        path.write_text(json.dumps(violation, indent=1, ensure_ascii=False))
        what = violation.get("what") or "; ".join(f"{f['function']}: {f['message']}" for f in violation["failed_obligations"][:3])
        log(what[:1500])
        print(f"VIOLATION property={prop} replay={path}{tail}")
        exitcode = 1
    elif (undecided or not proofs) and (not h or not h.ok):
        log("no answer:", "; ".join(p.why for p in undecided), h.note if h else "")
        exitcode = 2
    evidence(prop, cfg, proofs, h, exitcode)
    return exitcode


def evidence(prop, cfg, proofs, h, exitcode):
    proved = [p for p in proofs if p.status == "proved"]
    level = "proof" if proofs and len(proved) == len(proofs) else "exploration"
    if proofs and exitcode == 1 and any(p.status == "failed" for p in proofs):
        level = "proof"
    cov = {}
    if proofs:
        cov["obligations"] = sum(p.obligations for p in proofs)
        cov["discharged"] = sum(p.discharged for p in proofs)
        cov["checker_cmd"] = "vx units/{0}.vx && {1}".format(",".join(p.unit for p in proofs), "; ".join(re.sub(r"\S*/run-[^/]*/", "", p.cmd) for p in proofs))
        cov["back_end"] = "Verus (SMT: Z3)"
        cov["contract_clauses"] = sum(p.clauses for p in proofs)
        cov["solver_ms"] = sum(p.smt_ms for p in proofs)
        cov["functions_under_contract"] = sorted({f["key"] for p in proofs for f in p.functions if not f["trusted"]})
        cov["functions_assumed"] = sorted({f["key"] for p in proofs for f in p.functions if f["trusted"]})
        cov["trusted_base"] = sorted({t for p in proofs for t in p.trusted}) + cfg.get("trusted", [])
        cov["vacuity_probes"] = [p.vacuity for p in proofs]
        unf = [n for p in proofs for n in p.notes]
        if unf:
            cov["unfolded_at_their_calls"] = unf
        und = {p.unit: p.why for p in proofs if p.status == "undecided"}
        if und:
            cov["undecided_units"] = und
            cov["fallback"] = "bounded: the runtime comparison below decided this run; nothing is counted as proved for the undecided units"
        fl = {p.unit: [f"{f['function']}: {f['message']}" for f in p.failed] for p in proofs if p.status == "failed"}
        if fl:
            cov["failed_obligations"] = fl
    if h:
        cov["evaluations"] = h.evaluations
        cov["distinct_nontrivial"] = h.nontrivial
        cov["rule"] = cfg.get("rule", "")
        cov["samples"] = h.samples[:6]
        cov["bounded_comparison_of_the_compiled_code"] = h.extra
        if h.note:
            cov["harness_note"] = h.note
    if cfg.get("explanation"):
        cov["explanation"] = cfg["explanation"]
    e = {"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level, "coverage": cov,
         "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - T0, 1), "violations": 1 if exitcode == 1 else 0}
    (EVID / f"{prop}.json").write_text(json.dumps(e, indent=1, ensure_ascii=False))


if __name__ == "__main__":
    sys.exit(main())
