"""Runs the jobs of one property, collects what the monitors saw, and answers."""
import concurrent.futures as cf
import fnmatch
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time
import traceback

from vlib import build as B
from vlib import plans

VERIF = B.VERIF
LEVEL = "exploration"
DEADLINE = 820  # seconds; a check gets 900


def seed_of(base, *parts):
    h = hashlib.sha256(("%d|" % base + "|".join(str(p) for p in parts)).encode()).digest()
    return int.from_bytes(h[:6], "big")


# ---------------------------------------------------------------------------------------
class Known:
    """known_findings.txt: lines 'known: property=<id> match=<glob> <what>' suppress violations of
    that property whose 'tag|key' matches; lines 'fixed: ...' suppress nothing."""

    def __init__(self):
        self.items = []
        p = os.path.join(VERIF, "known_findings.txt")
        if not os.path.exists(p):
            return
        for line in open(p):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", line.strip())
            if m:
                self.items.append(m.groups())

    def find(self, prop, ident):
        for p, g, what in self.items:
            if p == prop and fnmatch.fnmatchcase(ident.replace(" ", "_"), g):
                return what
        return None


# ---------------------------------------------------------------------------------------
def sanitizer_reports(text):
    """[(ident, excerpt)] of the sanitizer reports in the text"""
    out = []
    for m in re.finditer(r"(==\d+==ERROR: (AddressSanitizer|LeakSanitizer): ([^\n]*)|"
                         r"WARNING: ThreadSanitizer: ([^\n]*)|([^\s:]+:\d+:\d+: runtime error: [^\n]*))", text):
        rest = text[m.start():m.start() + 9000]
        end = rest.find("SUMMARY: ", 10)
        body = rest if end < 0 else rest[:end + 400]
        if m.group(2):
            head = m.group(2) + ":" + m.group(3).split(" on ")[0].split(" in ")[0]
            head = re.sub(r"0x[0-9a-f]+.*", "", head).strip()
        elif m.group(4):
            head = "ThreadSanitizer:" + m.group(4).split(" (pid")[0]
        else:
            head = "UndefinedBehavior:" + re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(5).split("runtime error: ")[1])[:80]
        frames = []
        if m.group(5):
            frames.append(os.path.basename(m.group(5).split(":")[0]))
        # first frame of the engine of each stack of the report
        for stack in re.split(r"\n\s*\n", body):
            f = re.findall(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/\S*?/(?:src|include)/\S+?):\d+", stack)
            f = [x for x in f if "/verif/" not in x[1]]
            if f:
                fn = re.sub(r"\(.*", "", f[0][0])
                fn = re.sub(r"<.*", "", fn)
                frames.append(fn.split("::")[-1] + "@" + os.path.basename(f[0][1]))
            if len(frames) >= 2:
                break
        out.append((head + ":" + "/".join(frames), body[:3500]))
    return out


def crash_ident(sig, text):
    try:
        name = signal.Signals(sig).name
    except ValueError:
        name = "signal%d" % sig
    m = re.search(r"Check failed: ([^\n]*)|terminate called [^\n]*|Assertion `([^']*)'", text)
    return name + (":" + m.group(0)[:80] if m else "")


class Job:
    def __init__(self, variant, driver, args, cases, timeout=None, hang=60):
        self.variant, self.driver, self.args, self.cases = variant, driver, dict(args), cases
        self.timeout, self.hang = timeout, hang


SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=%(leaks)s:abort_on_error=0:exitcode=66:detect_stack_use_after_return=0:"
                    "allocator_may_return_null=1:handle_abort=0:quarantine_size_mb=64:malloc_context_size=12",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=66:halt_on_error=1",
    "TSAN_OPTIONS": "exitcode=66:halt_on_error=0:history_size=4:second_deadlock_stack=1:report_thread_leaks=0:"
                    "report_signal_unsafe=0:detect_deadlocks=0:suppressions=" + os.path.join(VERIF, "vlib", "tsan.supp"),
    "LSAN_OPTIONS": "exitcode=66:suppressions=" + os.path.join(VERIF, "vlib", "lsan.supp"),
}


def run_process(exe, job, seed, wdir, timeout, attempt=0):
    os.makedirs(wdir, exist_ok=True)
    out = os.path.join(wdir, "out%d.json" % attempt)
    log = os.path.join(wdir, "log%d" % attempt)
    status = os.path.join(wdir, "status%d" % attempt)
    cmd = [exe, job.driver, "--out", out, "--status", status, "--dir", os.path.join(wdir, "data%d" % attempt),
           "--seed", str(seed), "--cases", str(job.cases), "--hang", str(job.hang)]
    for k, v in job.args.items():
        if k.startswith("_"):
            continue
        cmd += ["--" + k, str(v)]
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(("SHIRAKAMI_", "TSURUGI_")):
            del env[k]
    for k, v in SAN_ENV.items():
        env[k] = v % {"leaks": job.args.get("_leaks", "0")} if "%(" in v else v
    t0 = time.time()
    with open(log, "wb") as lf:
        p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env, cwd=wdir, start_new_session=True)
        timed_out = False
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            timed_out = True
            os.killpg(p.pid, signal.SIGKILL)
            rc = p.wait()
    with open(log, "rb") as f:
        text = f.read()[-400000:].decode("utf-8", "replace")
    res = None
    if os.path.exists(out):
        try:
            res = json.load(open(out))
        except ValueError:
            res = None
    st = ""
    if os.path.exists(status):
        st = open(status, errors="replace").read().strip()
    shutil.rmtree(os.path.join(wdir, "data%d" % attempt), ignore_errors=True)
    return {"rc": rc, "timed_out": timed_out, "log": text, "res": res, "status": st, "cmd": cmd, "wall": time.time() - t0}


class HarnessFailure(Exception):
    pass


class Collector:
    def __init__(self, prop, plan):
        self.prop, self.plan = prop, plan
        self.evals = 0
        self.sigs = set()
        self.counters = {}
        self.samples = []
        self.viol = {}  # ident -> (text, replay)
        self.inconclusive = []
        self.errors_logged = {}
        self.processes = 0

    def violation(self, ident, text, replay):
        if ident not in self.viol:
            self.viol[ident] = [text, replay, 0]
        self.viol[ident][2] += 1

    def take(self, r, job):
        res = r["res"]
        if res is None:
            return
        self.evals += res["evals"]
        self.sigs.update(res["sigs"])
        for k, v in res["counters"].items():
            if k.startswith("max_"):
                self.counters[k] = max(self.counters.get(k, 0), v)
            else:
                self.counters[k] = self.counters.get(k, 0) + v
        for s in res["samples"]:
            if len(self.samples) < 4:
                self.samples.append(s)
        for k, v in res["engine_errors"].items():
            self.errors_logged.setdefault(k, v)
        for v in res["violations"]:
            if plans.owns(self.plan, v["tag"]):
                self.violation(v["tag"] + "|" + v["key"], v["text"], job.variant + " " + v["replay"])
            else:
                k = "other_" + v["tag"]
                self.counters[k] = self.counters.get(k, 0) + 1


def execute(job, seed, exe, wdir, deadline, col, lock):
    """one process; a process without progress or over time is run once more before anything is said"""
    for attempt in (0, 1):
        budget = deadline - time.time()
        if budget < 5:
            with lock:
                col.inconclusive.append("no time left for %s" % job.driver)
            return
        r = run_process(exe, job, seed, wdir, min(budget, job.timeout or budget), attempt)
        rc = r["rc"]
        replay = "%s %s # %s" % (job.variant, " ".join(r["cmd"][1:]), r["status"])
        with lock:
            col.processes += 1
            reports = sanitizer_reports(r["log"])
            if rc == 0 or (rc == 66 and r["res"] is not None and r["res"]["complete"]):
                if r["res"] is None or not r["res"]["complete"]:
                    raise HarnessFailure("no result of " + " ".join(r["cmd"]) + "\n" + r["log"][-2000:])
                col.take(r, job)
                for ident, body in reports:
                    col.violation("sanitizer|" + ident, body, replay)
                return
            if rc == 3 or rc == 2:
                raise HarnessFailure("driver failed: " + " ".join(r["cmd"]) + "\n" + r["log"][-3000:])
            if reports:
                for ident, body in reports:
                    col.violation("sanitizer|" + ident, body, replay)
                col.take(r, job)
                return
            hang = rc == 77
            if not hang and not r["timed_out"]:
                # died
                sig = -rc if rc < 0 else rc
                col.violation("crash|" + crash_ident(sig, r["log"]),
                              "the process ended with %d in: %s\n%s" % (rc, r["status"], r["log"][-3000:]), replay)
                col.take(r, job)
                return
            if attempt == 0:
                col.inconclusive.append("%s: %s" % ("no progress" if hang else "time limit", r["status"][:200]))
                continue
            if hang:
                m = re.search(r"VDRV-STUCK (\S+)", r["log"])
                col.violation("hang|" + (m.group(1) if m else job.driver), "no progress twice in: %s\n%s" % (r["status"], r["log"][-3000:]), replay)
                col.take(r, job)
            else:
                col.inconclusive.append("time limit twice: %s" % r["status"][:200])
            return


def write_replay(prop, ident, v, seed, tier):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    name = prop + "-" + hashlib.sha256(ident.encode()).hexdigest()[:10] + ".txt"
    path = os.path.join(d, name)
    with open(path, "w") as f:
        f.write("property %s  VERIF_SEED=%d VERIF_TIER=%s\nviolation %s (seen %d times in this run)\n"
                "arguments of build/<variant>/vdrv (first word: variant):\n%s\n\n%s\n"
                % (prop, seed, tier, ident, v[2], v[1], v[0]))
    return path


def main(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        print("VERIF_SEED is not a number")
        return 2
    plan = plans.PLANS.get(prop)
    if plan is None:
        print("no such property: " + prop)
        return 2
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev_path = os.path.join(VERIF, "evidence", prop + ".json")
    if os.path.exists(ev_path):
        os.unlink(ev_path)
    wdir = os.path.join(VERIF, "build", "run-%s-%d" % (prop, os.getpid()))
    try:
        jobs = plan["jobs"](tier, Job)
        exes = {}
        for v in sorted({j.variant for j in jobs}):
            exes[v] = B.build(v)["vdrv"]
        col = Collector(prop, plan)
        os.makedirs(wdir)
        deadline = t0 + (DEADLINE if tier == "quick" else 3600 * 2)
        import threading
        lock = threading.Lock()
        tb = time.time()
        with cf.ThreadPoolExecutor(plan.get("parallel", 8)) as ex:
            fs = []
            for i, j in enumerate(jobs):
                fs.append(ex.submit(execute, j, seed_of(seed, prop if not j.args.get("_shared") else "", i), exes[j.variant],
                                    os.path.join(wdir, str(i)), deadline, col, lock))
            for f in fs:
                f.result()
        known = Known()
        bad = []
        for ident in sorted(col.viol):
            what = known.find(prop, ident)
            path = write_replay(prop, ident, col.viol[ident], seed, tier)
            if what is not None:
                print("KNOWN-FINDING: property=%s %s [%s, seen %d times]" % (prop, what, ident, col.viol[ident][2]))
            else:
                bad.append((ident, path))
        counters = {k: v for k, v in sorted(col.counters.items())}
        # a run that observed nothing is an error, not a success
        missing = [k for k in plan.get("need", []) if counters.get(k, 0) == 0]
        ev = {"property": prop, "tier": tier, "seed": seed, "level": plan.get("level", LEVEL),
              "coverage": {"evaluations": col.evals, "distinct_nontrivial": len(col.sigs), "rule": plan["rule"],
                           "samples": col.samples, "observed": counters, "processes": col.processes,
                           "inconclusive": col.inconclusive[:20], "engine_error_messages": col.errors_logged,
                           "variants": sorted(exes), "build_s": round(tb - t0, 1)},
              "assumptions": plan.get("assumptions", plans.ASSUMPTIONS),
              "wall_s": round(time.time() - t0, 1), "violations": len(bad)}
        with open(ev_path, "w") as f:
            json.dump(ev, f, indent=1)
        for ident, path in bad:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  " + ident)
            for line in col.viol[ident][0].splitlines()[:40]:
                print("    " + line)
        if bad:
            return 1
        if col.evals == 0 or len(col.sigs) == 0 or missing:
            print("ERROR: nothing decided (evaluations %d, distinct %d, never seen: %s; %s)" %
                  (col.evals, len(col.sigs), missing, col.inconclusive[:5]))
            return 2
        print("%s held: %d evaluations, %d distinct non-trivial, %d inconclusive, %.0f s" %
              (prop, col.evals, len(col.sigs), len(col.inconclusive), time.time() - t0))
        return 0
    except (B.BuildError, HarnessFailure) as e:
        print("ERROR: %s" % e)
        return 2
    except Exception:  # the check itself failed
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(wdir, ignore_errors=True)
