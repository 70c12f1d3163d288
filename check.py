#!/usr/bin/env python3
"""Runs one property's check:  python3 check.py C01 [--replay FILE]

Builds libnpy from /repo's working tree together with the property's harness in
a private scratch directory, drives it with generated cases (VERIF_SEED,
VERIF_TIER), writes evidence/<id>.json and exits 0 / 1 (VIOLATION) / 2 (error).
"""
import glob
import json
import os
import resource
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from checks_config import CHECKS  # noqa: E402

PYTHON = os.environ.get("VERIF_PYTHON") or "/opt/veriftools/pyvenv/bin/python3"
if not os.path.exists(PYTHON):
    PYTHON = shutil.which("python3-vt") or "python3"

# gcc, which builds the repository, only warns about what clang refuses by default
WARN = ["-w", "-Wno-everything"]
BASE = ["-std=c++17", "-g1", "-DNDEBUG", "-fno-omit-frame-pointer"]
SAN = {
    "asan": ["-O1", "-fsanitize=address", "-fno-sanitize-recover=all"],
    "ubsan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
              "-fno-sanitize=alignment,vptr,function,nonnull-attribute,pointer-overflow,shift,enum"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "none": ["-O2"],
    "assert": ["-O1", "-fsanitize=address", "-fno-sanitize-recover=all", "-UNDEBUG"],
}
ENV = {
    # exit status 99 marks a sanitizer report; allocation failures surface as
    # bad_alloc so that absurd sizes in malformed files are an exception
    "ASAN_OPTIONS": "exitcode=99:detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:handle_abort=0:detect_stack_use_after_return=0:quarantine_size_mb=16:max_allocation_size_mb=16384",
    "UBSAN_OPTIONS": "exitcode=99:print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "exitcode=99:halt_on_error=1:report_thread_leaks=0",
}


class BuildError(Exception):
    pass


def repo_sources():
    src = sorted(glob.glob(REPO + "/src/*.cpp") + glob.glob(REPO + "/src/*.c")
                 + glob.glob(REPO + "/src/miniz/*.cpp") + glob.glob(REPO + "/src/miniz/*.c"))
    if not src:
        raise BuildError("no sources in " + REPO)
    return src


class Builder:
    """Compiles each (source, flags) once and links the stages' programs."""

    def __init__(self, work):
        self.work = work
        self.pool = ThreadPoolExecutor(8)
        self.objs = {}

    def compile(self, src, flags):
        key = (src, tuple(flags))
        if key not in self.objs:
            obj = "%s/o%d.o" % (self.work, len(self.objs))
            cxx = "clang++"
            cmd = [cxx] + (["-x", "c++"] if src.endswith(".c") else []) + flags + WARN + ["-c", src, "-o", obj]
            self.objs[key] = (obj, self.pool.submit(self._run, cmd))
        return self.objs[key]

    @staticmethod
    def _run(cmd):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p.returncode, " ".join(cmd) + "\n" + p.stdout[-4000:]

    def program(self, name, stage):
        flags = BASE + SAN[stage.get("san", "asan")] + ["-I" + REPO + "/include", "-I" + REPO + "/src",
                                                      "-I" + HERE + "/harness"]
        flags += stage.get("flags", [])
        lib_flags = flags + stage.get("lib_flags", [])
        parts = [self.compile(s, lib_flags) for s in repo_sources()]
        mains = [HERE + "/props/" + s for s in stage["src"]]
        common = ["pbt.cpp", "ref.cpp", "gen.cpp", "lib.cpp", "npd.cpp"]
        common = stage.get("common", common)
        parts += [self.compile(s, flags) for s in mains]
        parts += [self.compile(HERE + "/harness/" + s, flags) for s in common]
        exe = "%s/%s" % (self.work, name)
        return exe, parts, flags, stage

    def link(self, prog):
        exe, parts, flags, stage = prog
        failed = [(o, fut.result()[1]) for o, fut in parts if fut.result()[0]]
        if failed and stage.get("reduced"):
            # a change may refuse some of the uses the harness makes of the
            # library: decide with the rest
            print("NOTE: building stage %s with reduced uses after: %s" % (stage["name"], failed[0][1][-600:]))
            less = dict(stage, flags=stage.get("flags", []) + stage["reduced"])
            less.pop("reduced")
            return self.link(self.program(os.path.basename(exe), less))
        if failed:
            raise BuildError(failed[0][1])
        rc, log = self._run(["clang++"] + flags + stage.get("link_flags", []) + [o for o, _ in parts]
                            + ["-o", exe, "-lz", "-lpthread", "-ldl"])
        if rc:
            raise BuildError(log)
        return exe


def main():
    t0 = time.time()
    pid = sys.argv[1]
    cfg = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    only = sys.argv[sys.argv.index("--stage") + 1] if "--stage" in sys.argv else None
    mult = float(os.environ.get("VERIF_CASES", "1"))
    outdir = HERE + "/out"
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(HERE + "/evidence", exist_ok=True)
    work = tempfile.mkdtemp(prefix="libnpy-verif-%s-" % pid, dir="/tmp")
    os.chmod(work, 0o755)
    try:
        return run(pid, cfg, tier, seed, replay, only, mult, outdir, work, t0)
    except BuildError as e:
        print("BUILD ERROR\n" + str(e)[-6000:])
        return 2
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def run(pid, cfg, tier, seed, replay, only, mult, outdir, work, t0):
    env = dict(os.environ)
    env.update(ENV)
    env["VERIF_PYTHON"] = PYTHON
    env["VERIF_NPD"] = HERE + "/harness/npd.py"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["OPENBLAS_NUM_THREADS"] = "1"
    env["VERIF_REPO_DIR"] = REPO
    env.pop("LD_PRELOAD", None)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    b = Builder(work)
    stages = [s for s in cfg["stages"] if only is None or s["name"] == only]
    stages = [s for s in stages if tier in s.get("tiers", ("quick", "thorough"))]
    if replay:
        want = open(replay).read().split("stage ", 1)
        if len(want) > 1:
            stages = [s for s in stages if s["name"] == want[1].split()[0]]
    progs = [b.program(s["name"], s) for s in stages]
    tot = {"evaluations": 0, "distinct_nontrivial": 0, "discarded": 0}
    detail, samples, notes, violations, rules = [], [], [], 0, []
    status = 0
    for stage, prog in zip(stages, progs):
        exe = b.link(prog)
        built = time.time()
        scratch = tempfile.mkdtemp(prefix=stage["name"] + "-", dir=work)
        stats = scratch + "/stats.json"
        cases = int(stage["cases"][tier] * mult)
        cmd = [exe, "--property", pid, "--seed", str(seed), "--cases", str(cases),
               "--jobs", str(stage.get("jobs", 8)), "--budget", str(stage.get("budget", {}).get(tier, 240 if tier == "quick" else 3000)),
               "--cpu", str(stage.get("cpu", 120)), "--stats", stats, "--outdir", outdir, "--tier", tier,
               "--scratch", scratch, "--stage", stage["name"], "--sticky", "1" if stage.get("sticky") else "0"]
        if replay:
            cmd += ["--replay", os.path.abspath(replay)]
        e = dict(env)
        e.update(stage.get("env", {}))
        p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, text=True, errors="replace", cwd=scratch,
                           stderr=None if os.environ.get("PBT_VERBOSE") else subprocess.DEVNULL)
        sys.stdout.write(p.stdout)
        sys.stdout.flush()
        rc = p.returncode
        if replay:
            return rc
        if os.path.exists(stats):
            st = json.load(open(stats))
            for k in tot:
                tot[k] += st[k]
            violations += st["violations"]
            if st["note"]:
                notes.append(st["note"])
            samples += ["[%s] %s" % (stage["name"], s) for s in st["samples"]][:8]
            rules.append("%s: %s" % (stage["name"], st["rule"]) if len(stages) > 1 else st["rule"])
            detail.append({"stage": stage["name"], "requested": st["requested"], "evaluations": st["evaluations"],
                           "discarded": st["discarded"], "nontrivial": st["nontrivial"],
                           "distinct_nontrivial": st["distinct_nontrivial"], "seconds": round(time.time() - built, 1),
                           "build": stage.get("san", "asan"), "classes": st["labels"]})
        shutil.rmtree(scratch, ignore_errors=True)
        if rc == 4:
            notes.append("stage %s saw a failure that did not reproduce" % stage["name"])
        elif rc == 1:
            status = 1
            break
        elif rc != 0:
            print("ERROR: stage %s ended with status %d" % (stage["name"], rc))
            status = 2
            break
    for line in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, line))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": cfg["level"],
        "coverage": {
            "evaluations": tot["evaluations"], "distinct_nontrivial": tot["distinct_nontrivial"],
            "discarded": tot["discarded"], "rule": "  |  ".join(rules), "samples": samples[:24] or ["(none)"],
            "stages": detail, "notes": notes,
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": violations,
    }
    tmp = HERE + "/evidence/.%s.%d.tmp" % (pid, os.getpid())
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, HERE + "/evidence/%s.json" % pid)
    if status == 0:
        print("OK property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs" %
              (pid, tot["evaluations"], tot["distinct_nontrivial"], time.time() - t0))
    return status


def known_findings(pid):
    """Open findings (not the fixed ones) of this property."""
    out = []
    path = HERE + "/KNOWN_FINDINGS"
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("open: property=%s " % pid):
                out.append(line.split(" ", 2)[2].strip())
    return out


if __name__ == "__main__":
    sys.exit(main())
