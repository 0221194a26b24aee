"""The check of C01: the interpreter, the address sanitizer and the borrow checker as monitors."""
import json
import os
import re
import shutil
import signal
import subprocess
import threading
import time

MIRI = {"sb": "", "tb": "-Zmiri-tree-borrows"}
# what the borrow checker (and the missing Send and Sync) say about misuse
REJECTED = {"E0597", "E0505", "E0506", "E0499", "E0502", "E0515", "E0716", "E0521", "E0373", "E0277", "E0308", "E0310",
            "E0053", "E0382", "E0503", "E0594", "E0596", "E0700", "E0713", "lifetime may not live long enough"}
# the known findings are about whose borrow is valid; memory that is gone is another matter
WORSE = re.compile("been freed|dangling|out-of-bounds|uninitialized|deallocat")
CPUS = os.cpu_count() or 4


def env_for(model):
    e = dict(os.environ)
    e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-ignore-leaks " + MIRI[model]
    e["RUSTFLAGS"] = "-Awarnings"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def miri(c, crate, bin, args, model, tdir="target-miri"):
    return ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--target-dir",
            os.path.join(c.ROOT, crate, tdir), "--bin", bin, "--"] + args


def verdict(code, out, err):
    """None: nothing wrong; else what the monitor saw."""
    if code == 0:
        return None
    if "Undefined Behavior" in err:
        return err[err.index("Undefined Behavior"):][:2500]
    if "AddressSanitizer" in err:
        return err[err.index("AddressSanitizer"):][:2500]
    if "UNSOUND" in out:
        return out[out.index("UNSOUND"):][:500]
    if "unsafe precondition" in err or "abnormal termination" in err:
        return "aborted: " + err[-2500:]
    if code is not None and code < 0 and -code in (signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGABRT,
                                                   signal.SIGTRAP):
        return "died from signal %d: %s" % (-code, err[-2500:])
    return ""


def chaos_many(c, found, jobs, timeout):
    """Runs (label, command, env) side by side; each prints @group index before a case."""
    results = [None] * len(jobs)

    def work(i):
        results[i] = c.run(jobs[i][1], env=jobs[i][2], timeout=timeout, cwd=os.path.join(c.ROOT, "hostile"))

    ts = [threading.Thread(target=work, args=(i,)) for i in range(len(jobs))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for (label, cmd, _), (code, out, err, wall) in zip(jobs, results):
        last = "?"
        for m in re.finditer(r"^@(\w+) (\d+)$", out, re.M):
            last = m.group(2)
            key = "%s.%s" % (label, m.group(1))
            found.counters[key] = found.counters.get(key, 0) + 1
            found.evaluations += 1
        m = re.search(r"^distinct (\d+)$", out, re.M)
        if m:
            found.distinct += int(m.group(1))
        if code == 0:
            continue
        v = verdict(code, out, err)
        if v:
            found.evaluations += 1
            found.violations.append({"case": "%s:%s" % (label, last), "detail": v})
        elif code is None:
            raise c.NoVerdict("%s did not end (case %s)" % (label, last))
        else:
            raise c.NoVerdict("%s ended with %s at case %s: %s" % (label, code, last, c.tail(err)))


def misuse(c, found):
    """Programs that have to be rejected.  What the compiler lets through is interpreted."""
    crate = os.path.join(c.ROOT, "misuse")

    def check(features):
        cmd = ["cargo", "+nightly", "check", "--offline", "--keep-going", "--bins", "--message-format", "json",
               "--target-dir", os.path.join(crate, "target")] + features
        code, out, err, _ = c.run(cmd, env={"RUSTFLAGS": "-Awarnings"}, cwd=crate)
        good, bad = set(), {}
        for line in out.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
                k = m["message"]["code"]
                if not m["message"]["message"].startswith("aborting"):
                    bad.setdefault(m["target"]["name"], set()).add(k["code"] if k else m["message"]["message"])
            elif m.get("reason") == "compiler-artifact" and "bin" in m["target"]["kind"]:
                good.add(m["target"]["name"])
        return good, bad, err

    names = sorted(f[:-3] for f in os.listdir(os.path.join(crate, "src", "bin")) if f.endswith(".rs"))
    control, cbad, err = check(["--features", "control"])
    if not control:
        raise c.NoVerdict("no program compiles: " + c.tail(err))
    good, bad, _ = check([])
    rejected = 0
    for n in names:
        if n not in control:
            found.counters["misuse.control_does_not_compile"] = found.counters.get("misuse.control_does_not_compile", 0) + 1
            continue
        found.evaluations += 1
        if n in bad and n not in good:
            if bad[n] & REJECTED:
                rejected += 1
                found.distinct += 1
            continue
        # compiles: undefined or not?
        seen = 0
        for model in MIRI:
            code, out, err, _ = c.run(miri(c, "misuse", n, [], model), env=env_for(model), timeout=120, cwd=crate)
            v = verdict(code, out, err)
            if v:
                seen += 1
                found.violations.append({
                    "case": "misuse.%s" % n,
                    "detail": "safe code that must be rejected compiles, and executes undefined behaviour (%s):\n%s\n%s"
                              % (model, open(os.path.join(crate, "src", "bin", n + ".rs")).read(), v),
                })
                break
        found.counters["misuse.compiled"] = found.counters.get("misuse.compiled", 0) + 1
    found.counters["misuse.rejected"] = rejected
    found.samples.append("misuse rejected: " + ", ".join("%s (%s)" % (n, "/".join(sorted(bad[n])[:1])) for n in names[:12] if n in bad))


def known(c, found):
    """The scenarios of known-findings.txt: undefined behaviour there is reported as known."""
    listed = {}
    for line in open(os.path.join(c.ROOT, "known-findings.txt")):
        m = re.match(r"finding: property=C01 scenario=(\w+) (.*)", line)
        if m:
            listed[m.group(1)] = m.group(2)
    for s in ("descriptor", "owned", "box", "newtype", "flatten"):
        code, out, err, _ = c.run(miri(c, "hostile", "known", [s], "sb"), env=env_for("sb"), timeout=120,
                                  cwd=os.path.join(c.ROOT, "hostile"))
        v = verdict(code, out, err)
        found.evaluations += 1
        if v and s in listed and "Undefined Behavior" in v and not WORSE.search(v):
            found.known.append("scenario=%s %s" % (s, listed[s]))
        elif v:
            found.violations.append({"case": "known.%s" % s, "detail": v})
        elif code != 0:
            raise c.NoVerdict("known %s ended with %s: %s" % (s, code, c.tail(err)))


def run(c, found, case):
    crate = os.path.join(c.ROOT, "hostile")
    thorough = c.TIER == "thorough"
    if case and not case.startswith("chaos") and not case.startswith("misuse") and not case.startswith("known"):
        ok, msg, _ = c.build(["c01"])
        if not ok:
            raise c.NoVerdict("build failed:\n" + msg)
        return c.monitor(found, "c01", c.binary("c01"), case=case)

    if not case or case.startswith("misuse"):
        misuse(c, found)
        if found.violations or case:
            return

    marks = {}

    def build_miri():
        marks["miri"] = c.run(miri(c, "hostile", "chaos", [str(c.SEED), "0", "1", "0", "0"], "sb"), env=env_for("sb"),
                              timeout=400, cwd=crate)

    def build_asan():
        e = {"RUSTFLAGS": "-Zsanitizer=address -Awarnings"}
        marks["asan"] = c.run(["cargo", "+nightly", "build", "--offline", "--quiet", "--bin", "chaos", "--target",
                               "x86_64-unknown-linux-gnu", "--target-dir", os.path.join(crate, "target-asan")],
                              env=e, timeout=400, cwd=crate)
        marks["asan_mon"] = c.run(["cargo", "+nightly", "build", "--offline", "--quiet", "--bin", "c01", "--target",
                                   "x86_64-unknown-linux-gnu", "--target-dir", os.path.join(c.HARNESS, "target-asan")],
                                  env=e, timeout=500)

    def build_plain():
        marks["plain"] = c.build(["c01"])

    ts = [threading.Thread(target=f) for f in (build_miri, build_asan, build_plain)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for k in ("miri", "asan", "asan_mon"):
        code, out, err, _ = marks[k]
        if code != 0:
            v = verdict(code, out, err)
            if v and k == "miri":
                found.violations.append({"case": "chaos.start", "detail": v})
                return
            raise c.NoVerdict("%s: build failed: %s" % (k, c.tail(err)))
    if not marks["plain"][0]:
        raise c.NoVerdict("build failed:\n" + marks["plain"][1])

    if case and case.startswith("chaos"):
        model, index = case.split(".")[1].split(":")
        if model == "asan":
            jobs = [("chaos.asan", asan_chaos(c, [str(c.SEED), index, "1", str(int(index) + 1), "900"]), asan_env())]
        else:
            jobs = [("chaos." + model, miri(c, "hostile", "chaos", [str(c.SEED), index, "1", str(int(index) + 1), "900"], model),
                     env_for(model))]
        return chaos_many(c, found, jobs, 900)
    if not case or case.startswith("known"):
        known(c, found)
        if found.violations or case:
            return

    # 1. the address sanitizer and plain executions
    for prefix, path, e, mem in (("plain/", c.binary("c01"), None, 24 << 30),
                                 ("asan/", c.binary("c01", "x86_64-unknown-linux-gnu", "target-asan"), asan_env(), None)):
        c.monitor(found, "c01", path, env=e, prefix=prefix, memory=mem)
        if found.violations:
            return
    n = 4_000_000 if thorough else 400_000
    jobs = [("chaos.asan", asan_chaos(c, [str(c.SEED), str(i), str(CPUS), str(n), "120" if thorough else "15"]), asan_env())
            for i in range(CPUS)]
    chaos_many(c, found, jobs, 300)
    if found.violations:
        return

    # 2. the interpreter, on every core
    secs = 560 if thorough else 50
    jobs = []
    for i in range(max(CPUS, 2)):
        model = ("sb", "tb")[i % 2]
        jobs.append(("chaos." + model, miri(c, "hostile", "chaos", [str(c.SEED), str(i), str(max(CPUS, 2)), "1000000", str(secs)], model),
                     env_for(model)))
    chaos_many(c, found, jobs, secs + 240)


def asan_env():
    return {"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=1:abort_on_error=0"}


def asan_chaos(c, args):
    return [os.path.join(c.ROOT, "hostile", "target-asan", "x86_64-unknown-linux-gnu", "debug", "chaos")] + args
