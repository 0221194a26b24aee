#!/usr/bin/env python3
"""Runs the check of one property: builds the monitors against /repo's working tree, runs them and
judges what they report.

usage: check.py ID [--thorough] [--case GROUP:INDEX]

exit 0: held on everything explored; 1: violation; 2: no verdict (build failure, harness error)
"""
import json
import os
import re
import resource
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import spec  # noqa: E402

HARNESS = os.path.join(ROOT, "harness")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
CRASHES = {signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGABRT, signal.SIGFPE, signal.SIGTRAP}


class NoVerdict(Exception):
    pass


class Found:
    def __init__(self):
        self.evaluations = 0
        self.distinct = 0
        self.counters = {}
        self.samples = []
        self.violations = []
        self.known = []

    def merge(self, r, prefix=""):
        self.evaluations += r["evaluations"]
        self.distinct += r["distinct"]
        for k, v in r["counters"].items():
            self.counters[prefix + k] = self.counters.get(prefix + k, 0) + v
        self.samples += [prefix + s for s in r["samples"]]
        for v in r["violations"]:
            self.violations.append({"case": prefix + v["case"], "detail": v["detail"]})


def tail(text, n=3000):
    return text if len(text) <= n else "..." + text[-n:]


def run(cmd, env=None, timeout=600, cwd=HARNESS, memory=None):
    e = dict(os.environ)
    e.update(env or {})

    def limits():
        if memory:
            resource.setrlimit(resource.RLIMIT_AS, (memory, memory))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    t = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         preexec_fn=limits, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        code = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        code = None
    return code, out.decode("utf8", "replace"), err.decode("utf8", "replace"), time.time() - t


def build(bins, features=None, toolchain=None, target=None, env=None, target_dir=None, prop=None, package_check=False):
    cmd = ["cargo"]
    if toolchain:
        cmd.append("+" + toolchain)
    cmd += ["build", "--offline", "--quiet"]
    for b in bins:
        cmd += ["--bin", b]
    if features:
        cmd += ["--features", features]
    if target:
        cmd += ["--target", target]
    if target_dir:
        cmd += ["--target-dir", os.path.join(HARNESS, target_dir)]
    env = dict(env or {})
    env.setdefault("RUSTFLAGS", "-Awarnings")
    code, out, err, wall = run(cmd, env=env, timeout=600)
    if code != 0:
        return False, tail(out + err, 6000), wall
    return True, "", wall


def binary(name, target=None, target_dir="target"):
    parts = [HARNESS, target_dir]
    if target:
        parts.append(target)
    return os.path.join(*parts, "debug", name)


def monitor(found, name, path, env=None, timeout=700, prefix="", case=None, memory=24 << 30):
    """Runs one monitor binary and collects its report."""
    out = os.path.join(ROOT, "evidence", ".%s.out.json" % name)
    if os.path.exists(out):
        os.remove(out)
    e = {"MON_OUT": out, "VERIF_SEED": str(SEED), "VERIF_TIER": TIER}
    e.update(env or {})
    if case:
        e["MON_CASE"] = case
    code, so, se, wall = run([path], env=e, timeout=timeout, memory=memory)
    report = None
    if os.path.exists(out):
        try:
            report = json.load(open(out))
        except ValueError:
            pass
        os.remove(out)
    if code is None:
        raise NoVerdict("%s did not end within %d s" % (name, timeout))
    if code in (0, 1) and report is not None:
        if report["harness_errors"]:
            raise NoVerdict("harness error: " + "; ".join(report["harness_errors"])[:3000])
        found.merge(report, prefix)
        return
    if code < 0 and -code in CRASHES:
        if report:
            found.merge(report, prefix)
        m = re.search(r"memory allocation of (\d+) bytes failed", se)
        if m and int(m.group(1)) < 1 << 36:
            # larger requests cannot come from the data of any workload: a corrupted length
            raise NoVerdict("%s ran out of memory: %s" % (name, tail(se)))
        found.evaluations += 1
        found.violations.append({
            "case": prefix + name,
            "detail": "the program under the workload died from signal %d\n%s" % (-code, tail(se)),
        })
        return
    errs = "; ".join((report or {}).get("harness_errors", []))
    raise NoVerdict("%s ended with %s: %s %s" % (name, code, errs[:2000], tail(se)))


def main():
    prop = sys.argv[1]
    case = None
    if "--case" in sys.argv:
        case = sys.argv[sys.argv.index("--case") + 1]
    s = spec.CHECKS[prop]
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    ev_path = os.path.join(ROOT, "evidence", prop + ".json")
    if os.path.exists(ev_path):
        os.remove(ev_path)
    start = time.time()
    found = Found()
    try:
        s["run"](sys.modules[__name__], found, case)
    except NoVerdict as e:
        print("NO VERDICT for %s: %s" % (prop, e))
        return 2
    wall = time.time() - start
    coverage = {
        "evaluations": found.evaluations,
        "distinct_nontrivial": found.distinct,
        "rule": s["rule"],
        "samples": found.samples[:16],
        "observed": found.counters,
        "known_findings_seen": found.known,
        "violating_cases": found.violations[:8],
    }
    evidence = {
        "property": prop,
        "tier": TIER,
        "seed": SEED,
        "level": s["level"],
        "coverage": coverage,
        "assumptions": s.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(found.violations),
    }
    with open(ev_path, "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    for k in found.known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    print("%s: %d evaluations, %d distinct, %.0f s" % (prop, found.evaluations, found.distinct, wall))
    if found.violations:
        v = found.violations[0]
        replay = os.path.join("replays", "%s-%d.json" % (prop, os.getpid()))
        with open(os.path.join(ROOT, replay), "w") as f:
            json.dump({
                "property": prop,
                "seed": SEED,
                "tier": TIER,
                "case": v["case"],
                "detail": v["detail"],
                "all": found.violations,
                "replay": "cd /verif && VERIF_SEED=%d VERIF_TIER=%s python3 tools/check.py %s --case %s"
                          % (SEED, TIER, prop, v["case"].split("/")[-1]),
            }, f, indent=1)
            f.write("\n")
        print("  %s: %s" % (v["case"], tail(v["detail"], 2000)))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if found.evaluations == 0:
        print("NO VERDICT for %s: nothing was evaluated" % prop)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
