#!/usr/bin/env python3
"""Build and run the check of one property against /repo's working tree.

usage: run.py ID [--thorough] [--replay FILE] [--only SUITE] [--jobs N]

exit 0: the property held on everything explored (known findings are printed)
exit 1: a line "VIOLATION property=ID replay=PATH" was printed
exit 2: the check itself could not give an answer
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "checks"))
sys.dont_write_bytecode = True
from registry import CHECKS  # noqa: E402

BUILD = os.path.join(VERIF, "build")
CXX = "g++"
BASE_FLAGS = [
    "-std=c++14", "-g1", "-O1", "-DNDEBUG", "-fno-omit-frame-pointer", "-w",
    "-DBOOST_BIND_GLOBAL_PLACEHOLDERS", "-DBOOST_ALLOW_DEPRECATED_HEADERS",
    "-include", os.path.join(VERIF, "mc", "mc_eigen.hh"),
    "-I", os.path.join(VERIF, "mc"),
    "-I", os.path.join(VERIF, "stub", "include"),
    "-I", os.path.join(REPO, "include"),
    "-I", os.path.join(REPO, "src"),
    "-isystem", "/usr/include/eigen3",
]


def die(msg):
    print("ERROR: " + msg, file=sys.stderr)
    sys.exit(2)


def compile_one(src, flags):
    """Compile src to an object, keyed by the preprocessed text."""
    pre = subprocess.run([CXX] + flags + ["-E", "-P", src], capture_output=True)
    if pre.returncode:
        return None, pre.stderr.decode(errors="replace")
    h = hashlib.sha256()
    h.update("\0".join(flags + [src]).encode())
    h.update(pre.stdout)
    obj = os.path.join(BUILD, h.hexdigest()[:32] + ".o")
    if not os.path.exists(obj):
        tmp = "%s.%d.tmp" % (obj, os.getpid())
        r = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp],
                           capture_output=True)
        if r.returncode:
            return None, r.stderr.decode(errors="replace")
        os.rename(tmp, obj)
    return obj, ""


def build(pid, cfg):
    os.makedirs(BUILD, exist_ok=True)
    flags = list(BASE_FLAGS)
    if cfg.get("asan", True):
        flags += ["-fsanitize=address,bounds", "-fno-sanitize-recover=bounds"]
    flags += cfg.get("flags", [])
    srcs = [os.path.join(VERIF, "checks", s) for s in cfg["harness"]]
    srcs += [os.path.join(VERIF, s) for s in cfg.get("support", [])]
    srcs += [os.path.join(REPO, s) for s in cfg.get("sources", [])]
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        res = list(ex.map(lambda s: compile_one(s, flags), srcs))
    for s, (o, err) in zip(srcs, res):
        if o is None:
            die("%s: cannot compile %s:\n%s" % (pid, s, err[-4000:]))
    objs = [o for o, _ in res]
    exe = os.path.join(BUILD, "%s.%d.exe" % (pid, os.getpid()))
    ld = [CXX] + (["-fsanitize=address,bounds"] if cfg.get("asan", True) else [])
    r = subprocess.run(ld + objs + cfg.get("ldflags", []) + ["-o", exe],
                       capture_output=True)
    if r.returncode:
        die("%s: cannot link:\n%s" % (pid, r.stderr.decode(errors="replace")[-4000:]))
    return exe


def known_findings(pid):
    """Keys listed as known findings for this property (never 'fixed:' ones)."""
    keys = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                keys[m.group(2)] = m.group(3).strip()
    return keys


def main():
    args = sys.argv[1:]
    pid = args.pop(0)
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    replay = only = None
    jobs = str(min(8, os.cpu_count() or 8))
    while args:
        a = args.pop(0)
        if a == "--thorough":
            thorough = True
        elif a == "--replay":
            replay = args.pop(0)
        elif a == "--only":
            only = args.pop(0)
        elif a == "--jobs":
            jobs = args.pop(0)
    cfg = CHECKS[pid]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vf-%s-" % pid)
    exe = None
    try:
        env = dict(os.environ)
        env["VERIF_REPO"] = REPO
        env["VERIF_SCRATCH"] = tmp
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        env["OPENBLAS_NUM_THREADS"] = "1"
        env["UBSAN_OPTIONS"] = "print_stacktrace=0"
        if cfg["kind"] == "cpp":
            exe = build(pid, cfg)
            cmd = [exe]
        else:
            cmd = [cfg.get("python", "/usr/bin/python3"),
                   os.path.join(VERIF, "checks", cfg["harness"][0])]
        build_s = time.time() - t0
        out = os.path.join(tmp, "result.json")
        cmd += ["--tmp", tmp, "--jobs", jobs, "--out", out]
        if thorough:
            cmd += ["--thorough"]
        if replay:
            rp = json.load(open(replay))
            r = subprocess.run(
                cmd + ["--replay", rp["suite"], " ".join(map(str, rp["choices"]))],
                env=env, capture_output=True)
            sys.stderr.write(r.stderr.decode(errors="replace"))
            if r.returncode:
                die("replay failed")
            res = json.loads(r.stdout.decode())
            print(json.dumps(res, indent=1))
            sys.exit(1 if res["failed"] else 0)
        if only:
            cmd += ["--only", only]
        kf = known_findings(pid)
        for k in kf:
            cmd += ["--known", k]
        limit = 780 if not thorough else 6 * 3600
        cmd += ["--deadline", str(cfg.get("deadline", limit))]
        try:
            r = subprocess.run(cmd, env=env, timeout=limit + 90, cwd=tmp,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        except subprocess.TimeoutExpired:
            die("%s: the explorer ran out of time" % pid)
        sys.stderr.write(r.stderr.decode(errors="replace")[-4000:])
        if r.returncode not in (0, 1) or not os.path.exists(out):
            die("%s: explorer exit %d" % (pid, r.returncode))
        res = json.load(open(out))
    finally:
        if exe and os.path.exists(exe):
            os.unlink(exe)
        shutil.rmtree(tmp, ignore_errors=True)

    suites = res["suites"]
    nviol = 0
    tot = lambda k: sum(s[k] for s in suites)  # noqa: E731
    samples = []
    for s in suites:
        for t in s["samples"][:3]:
            samples.append({"suite": s["name"], "trace": t[:40]})
    cov = {
        "suites": [
            {k: s[k] for k in ("name", "bounds", "executions", "transitions",
                               "states", "outcomes", "maxdepth", "pruned",
                               "capped", "wall")} for s in suites],
        "samples": samples[:24],
        "exhaustive": not any(s["capped"] for s in suites),
        "build_s": round(build_s, 1),
    }
    if cfg["level"] == "model_checking":
        cov["states"] = tot("states")
        cov["transitions"] = tot("transitions")
        cov["traces_validated_against_impl"] = tot("executions")
    else:
        cov["evaluations"] = tot("executions") + tot("pruned")
        cov["distinct_nontrivial"] = tot("outcomes")
        cov["rule"] = cfg.get("rule", "every sequence of choices within the "
                              "bounds of each suite is one case; cases are "
                              "non-trivial when they end in distinct observations")
    for s in suites:
        for k, v in s.get("known", {}).items():
            print("KNOWN-FINDING: property=%s %s (%d executions; e.g. %s)"
                  % (pid, kf.get(k, k), v["count"], v["msg"]))
    viol = [s for s in suites if s["failed"]]
    for s in viol:
        nviol += 1
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha256(json.dumps([s["name"], s["choices"]]).encode()).hexdigest()[:10]
        path = os.path.join(d, "%s-%s.json" % (pid, h))
        json.dump({"property": pid, "suite": s["name"], "key": s["key"],
                   "msg": s["msg"], "trace": s["trace"],
                   "choices": s["choices"]}, open(path, "w"), indent=1)
        print("suite %s: [%s] %s" % (s["name"], s["key"], s["msg"]))
        for t in s["trace"]:
            print("    " + t)
        print("VIOLATION property=%s replay=%s" % (pid, path))
    ev = {
        "property": pid,
        "tier": "thorough" if thorough else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": cfg["level"],
        "coverage": cov,
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": nviol,
    }
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s: %d executions, %d transitions, %d states, %d distinct outcomes, %.1fs"
          % (pid, tot("executions"), tot("transitions"), tot("states"),
             tot("outcomes"), time.time() - t0))
    sys.exit(1 if viol else 0)


if __name__ == "__main__":
    main()
