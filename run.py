#!/usr/bin/env python3
"""Runs one property's check: builds its harness from /repo, explores its scenarios on all cores, reports.

run.py <property> [quick|thorough]      exit 0 held, 1 violated (VIOLATION line), 2 no answer
run.py <property> --replay <file>       re-executes a recorded violation
"""
import array
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
sys.dont_write_bytecode = True
import vbuild  # noqa: E402
from checks import CHECKS  # noqa: E402

REPLAYS = os.path.join(VERIF, "replays")
SHARDS = max(2, min(8, os.cpu_count() or 8))
UNPRIV = 65534


def child_env():
    e = dict(os.environ)
    e.update(DOTS_LOG_LEVEL="8", TZ="UTC", LC_ALL="C")
    for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS"):
        e.pop(k, None)
    return e


def known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) sig=(\"(?:[^\"\\]|\\.)*\") ?(.*)", l.strip())
            if m and m.group(1) == pid:
                out.append((json.loads(m.group(2)), m.group(3)))
    return out


def crash_sig(log):
    m = re.search(r"SUMMARY: (\w+): (\S+)", log)
    if m:
        return m.group(1) + " " + m.group(2)
    m = re.search(r"runtime error: ([^\n]{0,120})", log)
    if m:
        return "UndefinedBehaviorSanitizer " + re.sub(r"0x[0-9a-f]+", "ADDR", m.group(1))
    return ""


class Worker:
    def __init__(self, exe, i, n, tier, tmp, seed, extra):
        self.i = i
        self.out = os.path.join(tmp, "out.%d" % i)
        self.cur = os.path.join(tmp, "cur.%d" % i)
        self.log = os.path.join(tmp, "log.%d" % i)
        wd = os.path.join(tmp, "wd.%d" % i)
        os.makedirs(wd, exist_ok=True)
        args = [exe, "--shard", "%d/%d" % (i, n), "--out", self.out, "--cur", self.cur, "--seed", str(seed)] + (["--thorough"] if tier == "thorough" else []) + extra
        self.f = open(self.log, "wb")
        self.p = subprocess.Popen(args, cwd=wd, stdout=self.f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=child_env())

    def text(self):
        self.f.flush()
        with open(self.log, "rb") as f:
            return f.read()[-200000:].decode("utf8", "replace")

    def current(self):
        with open(self.cur, "rb") as f:
            b = f.read()
        if len(b) < 68 + 1600:
            return None
        scen = b[:64].split(b"\0")[0].decode()
        n = min(struct.unpack("I", b[64:68])[0], 400)
        choices = list(struct.unpack("%dI" % n, b[68:68 + 4 * n]))
        note = b[68 + 1600:].split(b"\0")[0].decode("utf8", "replace")
        return scen, choices, note


def write_replay(pid, k, tier, scenario, choices, text):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-%d.txt" % (pid, k))
    with open(path, "w") as f:
        f.write("%s %s\n%s\n" % (scenario, tier, " ".join(map(str, choices))))
    with open(path[:-4] + ".log", "w") as f:
        f.write(text)
    return path


def run_replay(exe, path, timeout=120):
    try:
        p = subprocess.run([exe, "--replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=child_env(), timeout=timeout, cwd=tempfile.gettempdir())
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        return 97, "timeout"


def main():
    pid = sys.argv[1]
    if pid == "--setup":
        for d in ("build", "evidence", "replays"):
            os.makedirs(os.path.join(VERIF, d), exist_ok=True)
        print("ok")
        return 0
    if pid == "--build":
        for c in sys.argv[2:]:
            t = time.time()
            print(c, vbuild.build(c.lower(), **CHECKS[c]["build"]), round(time.time() - t, 1))
        return 0
    cfg = CHECKS[pid]
    mode = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    try:
        exe = vbuild.build(pid.lower(), **cfg["build"])
    except vbuild.BuildError as e:
        print("ERROR: build failed: %s" % e)
        return 2
    tb = time.time() - t0
    if mode == "--replay":
        rc, out = run_replay(exe, sys.argv[3])
        print(out[-6000:])
        return 0 if rc == 0 else 1
    tier = "thorough" if mode == "thorough" else "quick"
    budget = (820 if tier == "quick" else 7200) - tb
    tmp = tempfile.mkdtemp(prefix="vrun-%s-" % pid)
    findings = []  # (sig, msg, scenario, choices, text)
    errors = []
    try:
        n = cfg.get("shards", SHARDS)
        ws = [Worker(exe, i, n, tier, tmp, seed, []) for i in range(n)]
        for w in ws:
            left = max(5, t0 + tb + budget - time.time())
            try:
                w.p.wait(left)
            except subprocess.TimeoutExpired:
                pass
        for w in ws:
            if w.p.poll() is None:
                w.p.kill()
                w.p.wait()
                errors.append("shard %d ran out of time" % w.i)
        agg = {"evaluations": 0, "transitions": 0, "traces": 0, "scenarios": {}, "samples": []}
        states, outcomes = set(), set()
        for w in ws:
            rc = w.p.returncode
            if rc in (0, 1) and os.path.exists(w.out):
                d = json.load(open(w.out))
                for k in ("evaluations", "transitions", "traces"):
                    agg[k] += d[k]
                for k, v in d["scenarios"].items():
                    agg["scenarios"][k] = agg["scenarios"].get(k, 0) + v
                for s in d["samples"]:
                    if len(agg["samples"]) < 8 and s not in agg["samples"]:
                        agg["samples"].append(s)
                for v in d["violations"]:
                    findings.append((v["sig"], v["msg"], v["scenario"], v["choices"], ""))
                for ext, acc in ((".states", states), (".outcomes", outcomes)):
                    a = array.array("Q")
                    with open(w.out + ext, "rb") as f:
                        a.frombytes(f.read())
                    acc.update(a)
                continue
            if any("shard %d ran" % w.i in e for e in errors):
                continue
            text = w.text()
            if rc == 98 or rc == -9:
                errors.append("shard %d ended with %d: %s" % (w.i, rc, text[-800:]))
                continue
            cur = w.current()
            if cur is None or not cur[0]:
                errors.append("shard %d ended with %d before its first execution: %s" % (w.i, rc, text[-1500:]))
                continue
            what = "does not terminate" if rc == 97 else "crash: " + (crash_sig(text) or "exit status %d" % rc)
            findings.append(("%s: %s" % (cur[0], what), "%s; %s" % (what, cur[2]), cur[0], cur[1], text))
        if errors and not findings:
            print("ERROR: " + "; ".join(errors))
            return 2
        # one report per distinct violation, the known ones apart
        seen, fresh, old = set(), [], []
        kn = known(pid)
        for f in findings:
            if f[0] in seen:
                continue
            seen.add(f[0])
            hit = [k for k in kn if k[0] == f[0]]
            (old if hit else fresh).append(f)
        for sig, desc in kn:
            print("KNOWN-FINDING: property=%s %s%s" % (pid, desc or sig, "" if sig in seen else " (not observed in this run)"))
        lines = []
        for k, (sig, msg, scen, choices, text) in enumerate(fresh[:8]):
            path = write_replay(pid, k, tier, scen, choices, sig + "\n" + msg + "\n" + text[-20000:])
            rc, out = run_replay(exe, path)
            with open(path[:-4] + ".log", "a") as f:
                f.write("\n--- replay (exit %d) ---\n%s" % (rc, out[-20000:]))
            print("violated: %s" % sig[:700])
            if msg[:80] not in sig:
                print("  " + msg[:500])
            print("  replayed: %s" % ("reproduced" if rc != 0 else "not reproduced in isolation (the history before it matters)"))
            lines.append("VIOLATION property=%s replay=%s" % (pid, path))
        wall = time.time() - t0
        cov = {"scenarios": agg["scenarios"], "executions": agg["traces"], "samples": agg["samples"][:6], "exhaustive": not findings and not errors,
               "build_s": round(tb, 1), "shards": n}
        if cfg["level"] == "model_checking":
            cov.update(states=len(states), transitions=agg["transitions"], traces_validated_against_impl=agg["traces"], checks=agg["evaluations"], distinct_outcomes=len(outcomes), rule=cfg["rule"])
        else:
            cov.update(evaluations=agg["traces"], distinct_nontrivial=max(len(outcomes), len(states)), checks=agg["evaluations"], rule=cfg["rule"])
        ev = {"property": pid, "tier": tier, "seed": seed, "level": cfg["level"], "coverage": cov, "assumptions": cfg.get("assumptions", []), "violations": len(fresh), "wall_s": round(wall, 1)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d executions, %d checks, %d states, %d outcomes; build %.0f s, total %.0f s" % (pid, tier, agg["traces"], agg["evaluations"], len(states), len(outcomes), tb, wall))
        for e in errors:
            print("note: " + e[:400])
        for l in lines:
            print(l)
        return 1 if fresh else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
