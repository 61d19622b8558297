#!/usr/bin/env python3
"""Runs the monitors of one property against /repo's current working tree.

    run.py <property> <quick|thorough>

Builds the property's harnesses (harness/*.cpp, against /repo/include and /repo/examples) in a scratch directory, under one or
more compiler and sanitizer configurations, runs them, judges what they recorded and writes evidence/<property>.json.
Exit status: 0 nothing unexpected was observed, 1 a violation was observed (a VIOLATION line per key), 2 the machinery itself
could not decide (nothing is claimed then).
"""
import array, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from props import PROPS, CONFIGS  # noqa: E402

JOBS = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 8)
RUN_TIMEOUT = {"quick": 240, "thorough": 3000}
COMPILE_TIMEOUT = {"quick": 500, "thorough": 1500}


STAND_IN = {"casan0": "gasan0", "casan": "gasan1", "cub": "gasan0", "co2": "go2", "cplain": "gplain", "c23": "g23", "ctsan": "tsan"}


class Undecided(Exception):
    pass


def sh(cmd, timeout, env=None, cwd=None, stdout=None, stderr=None):
    p = subprocess.Popen(cmd, stdout=stdout or subprocess.PIPE, stderr=stderr or subprocess.PIPE, env=env, cwd=cwd,
                         stdin=subprocess.DEVNULL, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, (out or b"").decode("utf-8", "replace"), (err or b"").decode("utf-8", "replace"), False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return -9, (out or b"").decode("utf-8", "replace"), (err or b"").decode("utf-8", "replace"), True


def known_findings():
    known = {}
    for line in open(os.path.join(HERE, "KNOWN_FINDINGS.txt"), encoding="utf-8"):
        m = re.match(r"known:\s+property=(\S+)\s+key=(\S+)\s+::\s+(.*)$", line.strip())
        if m:
            known[(m.group(1), m.group(2))] = m.group(3)
    return known


def compile_cmd(cfg, src, out, defs):
    c = CONFIGS[cfg]
    return [c["cxx"], *c["flags"], "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "examples"),
            "-I" + os.path.join(HERE, "harness"), *defs, src, "-o", out, *c.get("libs", [])]


def unit_name(u):
    return u["src"].replace(".cpp", "") + "".join("/" + d[2:] for d in u.get("defs", []) if d.startswith("-D"))


def header_alone_compiles(cfg, tmp):
    src = os.path.join(tmp, "alone_%s.cpp" % cfg)
    with open(src, "w") as f:
        f.write('#include "dsga.hxx"\nint main() { dsga::vec3 v(1.0f, 2.0f, 3.0f); return v[0] == 1.0f ? 0 : 1; }\n')
    rc, _, err, to = sh(compile_cmd(cfg, src, src + ".bin", []), 300, env=dict(os.environ, TMPDIR=tmp))
    return rc == 0, err


def crash_kind(rc, err):
    m = re.search(r"(?:ERROR|WARNING): (AddressSanitizer|ThreadSanitizer|LeakSanitizer|MemorySanitizer): ([A-Za-z0-9 -]+)", err)
    if m:
        return m.group(1) + ":" + re.split(r" on | \(|:", m.group(2).strip())[0].strip().replace(" ", "-")
    m = re.search(r"runtime error: (.*)", err)
    if m:
        t = re.sub(r"-?\d+(\.\d+)?(e[+-]?\d+)?", "N", m.group(1))
        t = re.sub(r"0x[0-9a-f]+", "P", t)
        return "UBSan:" + re.sub(r"[^A-Za-z0-9]+", "-", t)[:60].strip("-")
    m = re.search(r"Assertion [`'](.*?)' failed", err)
    if m:
        return "assertion:" + re.sub(r"[^A-Za-z0-9]+", "-", m.group(1))[:60].strip("-")
    if "terminate called" in err:
        return "terminate"
    if rc < 0:
        try:
            return "signal:" + signal.Signals(-rc).name
        except ValueError:
            return "signal:%d" % -rc
    return "exit:%d" % rc


class Job:
    def __init__(self, unit, cfg, cases, seed, tmp, n, pid):
        self.pid = pid
        self.unit, self.cfg, self.cases, self.seed, self.n = unit, cfg, cases, seed, n
        self.bin = os.path.join(tmp, "b%d" % n)
        self.tmp = tmp
        self.viols, self.stat, self.note = [], None, ""
        self.compile_s = self.run_s = 0.0

    def name(self):
        return unit_name(self.unit) + "@" + self.cfg


def do_job(job, tier, alone):
    t0 = time.time()
    src = os.path.join(HERE, "harness", job.unit["src"])
    cmd = compile_cmd(job.cfg, src, job.bin, job.unit.get("defs", []) + ["-DTABLE_SEED=%d" % (job.seed % 1000000)] + (["-DTHOROUGH"] if tier == "thorough" else []))
    for attempt in (0, 1, 2):
        # the compiler's own temporary files stay in this run's scratch directory: in /tmp they have been seen to vanish
        rc, _, err, to = sh(cmd, COMPILE_TIMEOUT[tier], env=dict(os.environ, TMPDIR=job.tmp))
        if rc == 0:
            break
        # only a complaint about a place in the source, or about a name the linker lacks or has twice, is about the code
        about_code = re.search(r"^[^\s:]+:\d+(:\d+)?: (fatal )?error: ", err, re.M) or "undefined reference" in err or "multiple definition" in err or "undefined symbol" in err
        resource = to or rc < 0 or not about_code or "Killed" in err or "internal compiler error" in err or "out of memory" in err or "No space left" in err or "cannot allocate" in err.lower()
        if resource and attempt < 2 and not to:
            time.sleep(3)
            continue
        if resource:
            raise Undecided("compiler failed on %s: %s" % (job.name(), err[-600:]))
        ok, aerr = alone(job.cfg)
        if not ok and job.cfg in STAND_IN:
            # a tree which g++ accepts and clang++ does not: what it does is still observed, under g++
            print("NOTE property=%s dsga.hxx itself does not compile under %s, %s used instead" % (job.pid, job.cfg, STAND_IN[job.cfg]))
            job.cfg = STAND_IN[job.cfg]
            return do_job(job, tier, alone)
        if not ok:
            raise Undecided("dsga.hxx itself does not compile under %s: %s" % (job.cfg, aerr[-600:]))
        first = next((l for l in err.splitlines() if "error:" in l), err[:300])
        job.viols.append({"key": "compile/" + unit_name(job.unit), "msg": "code which the property promises to be usable does not compile: " + first.strip()[:500], "cmd": " ".join(cmd), "stderr": err[:6000]})
        job.stat = {"evaluations": 0, "counters": {}, "samples": []}
        job.compile_s = time.time() - t0
        return job
    job.compile_s = time.time() - t0
    t0 = time.time()
    env = dict(os.environ)
    env.update(CONFIGS[job.cfg].get("env", {}))
    env["TMPDIR"] = job.tmp
    for attempt in (0, 1):
        out, prog, hs, errf = (os.path.join(job.tmp, "%s%d" % (x, job.n)) for x in ("out", "prog", "hash", "err"))
        for f in (out, prog, hs):
            if os.path.exists(f):
                os.unlink(f)
        rcmd = [*CONFIGS[job.cfg].get("wrap", []), job.bin, "--seed", str(job.seed), "--cases", str(job.cases), "--out", out, "--progress", prog, "--hashes", hs]
        with open(errf, "wb") as ef:
            rc, _, _, to = sh(rcmd, RUN_TIMEOUT[tier], env=env, cwd=job.tmp, stderr=ef, stdout=subprocess.DEVNULL)
        if to and attempt == 0:
            continue        # a hang is believed only when it happens again
        break
    job.run_s = time.time() - t0
    err = open(errf, "rb").read(200000).decode("utf-8", "replace")
    section = ""
    if os.path.exists(prog):
        section = open(prog, "rb").read().split(b"\0")[0].decode("utf-8", "replace")
    if os.path.exists(out):
        for line in open(out, encoding="utf-8"):
            try:
                o = json.loads(line)
            except ValueError:
                continue        # torn by a crash
            if o.get("type") == "viol":
                job.viols.append({"key": o["key"], "msg": o["msg"], "case": o.get("case")})
            elif o.get("type") == "stat":
                job.stat = o
    if os.path.exists(hs):
        a = array.array("Q")
        a.frombytes(open(hs, "rb").read())
        job.hashes = a
    else:
        job.hashes = array.array("Q")
    if to:
        job.viols.append({"key": "hang/" + section, "msg": "no progress within %d s, twice, in section %s" % (RUN_TIMEOUT[tier], section)})
    elif rc != 0:
        if rc == 9:
            raise Undecided("%s could not set itself up" % job.name())
        if rc == -9:
            raise Undecided("%s was killed (memory?)" % job.name())
        job.viols.append({"key": "crash/%s/%s" % (section, crash_kind(rc, err)), "msg": "stopped in section %s: %s" % (section, err.strip()[:1500])})
    elif job.stat is None:
        raise Undecided("%s ended without its statistics" % job.name())
    if job.stat is None:
        job.stat = {"evaluations": 0, "counters": {}, "samples": []}
    for v in job.viols:
        v.setdefault("cmd", " ".join(cmd) + " && " + " ".join(rcmd[:-6]))
    try:
        os.unlink(job.bin)
    except OSError:
        pass
    return job


def main():
    if len(sys.argv) != 3 or sys.argv[1] not in PROPS or sys.argv[2] not in ("quick", "thorough"):
        print(__doc__)
        return 2
    pid, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    prop = PROPS[pid]
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    evpath = os.path.join(HERE, "evidence", pid + ".json")
    if os.path.exists(evpath):
        os.unlink(evpath)
    rdir = os.path.join(HERE, "evidence", "replay")
    tmp = tempfile.mkdtemp(prefix="dsga-%s-" % pid)
    try:
        jobs, n = [], 0
        for u in prop["units"]:
            plan = u.get(tier, prop[tier])
            for k, (cfg, cases) in enumerate(plan):
                # every configuration looks at its own inputs
                jobs.append(Job(u, cfg, cases, seed * 1000003 + 7919 * k + 17 * len(jobs), tmp, n, pid))
                n += 1
        lock, cache = threading.Lock(), {}

        def alone(cfg):
            with lock:
                if cfg not in cache:
                    cache[cfg] = header_alone_compiles(cfg, tmp)
                return cache[cfg]

        jobs.sort(key=lambda j: -j.unit.get("weight", 1) * CONFIGS[j.cfg].get("weight", 1))
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(lambda j: do_job(j, tier, alone), jobs))
    except Undecided as e:
        print("UNDECIDED property=%s %s" % (pid, e))
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    evals = sum(j.stat["evaluations"] for j in jobs)
    distinct = set()
    for j in jobs:
        if hasattr(j, "hashes"):
            distinct.update(j.hashes)
    if len(distinct) < 2 and not any(j.viols for j in jobs):
        print("UNDECIDED property=%s the monitors observed nothing" % pid)
        return 2
    # every unit has to have observed something
    for j in jobs:
        if j.stat["evaluations"] == 0 and not j.viols:
            print("UNDECIDED property=%s unit %s observed nothing" % (pid, j.name()))
            return 2
    known = known_findings()
    new, seen_known = {}, {}
    for j in jobs:
        for v in j.viols:
            k = v["key"]
            if (pid, k) in known:
                seen_known.setdefault(k, v)
            else:
                new.setdefault(k, (j, v))
    counters, samples = {}, []
    for j in jobs:
        for k, c in j.stat["counters"].items():
            counters[k] = counters.get(k, 0) + c
        for s in j.stat["samples"][:2]:
            if len(samples) < 12:
                samples.append(s)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(distinct), "rule": prop["rule"], "samples": samples or ["(none)"],
            "configurations": sorted({j.cfg + ": " + " ".join([CONFIGS[j.cfg]["cxx"]] + CONFIGS[j.cfg]["flags"]) for j in jobs}),
            "binaries": len(jobs),
            "sections": len(counters),
            "observations_by_section": dict(sorted(counters.items())[:400]),
        },
        "assumptions": prop.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
        "known_findings_observed": sorted(seen_known),
    }
    with open(evpath, "w") as f:
        json.dump(ev, f, indent=1)
    for (p, k), text in sorted(known.items()):
        if p == pid and k in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (pid, text))
    if os.environ.get("VERIF_TIMES"):
        for j in jobs:
            print("  %-50s compile %6.1f run %6.1f evals %d" % (j.name(), j.compile_s, j.run_s, j.stat["evaluations"]))
    print("%s %s seed=%d: %d observations, %d distinct, %d binaries, %d violations, %.1f s" % (pid, tier, seed, evals, len(distinct), len(jobs), len(new), time.time() - t0))
    if new:
        os.makedirs(rdir, exist_ok=True)
        for i, (k, (j, v)) in enumerate(sorted(new.items())):
            if i >= 12:
                print("... and %d more keys" % (len(new) - i))
                break
            path = os.path.join(rdir, "%s-%d.txt" % (pid, i))
            with open(path, "w") as f:
                f.write("property: %s\nkey: %s\nunit: %s\nseed: %s case: %s\n\n%s\n\nbuild and run (paths of the scratch directory vary):\n%s\n\n%s\n" % (pid, k, j.name(), j.seed, v.get("case"), v["msg"], v["cmd"], v.get("stderr", "")))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("   key=%s :: %s" % (k, v["msg"][:300].replace("\n", " | ")))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
