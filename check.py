#!/usr/bin/env python3
"""Decide one property: build its harness from /repo's current tree, search, report.

    python3 check.py <ID> [quick|thorough]       run the check
    python3 check.py --replay <file.replay>      re-run one failing case

Exit 0: held on everything explored; exit 1: violated ("VIOLATION property=<ID> replay=<path>");
exit 2: the check could not run.
"""
import concurrent.futures
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GOOSEFEM_REPO", "/repo")
WORKERS = int(os.environ.get("VERIF_WORKERS", "0")) or os.cpu_count() or 4
FLAGS = [
    "-std=c++17",
    "-g1",
    '-DGOOSEFEM_VERSION="0.0"',
    f"-I{HERE}/harness",
    f"-I{REPO}/include",
    "-I/usr/include/eigen3",
    "-w",
]
ASSERT = "-DGOOSEFEM_ENABLE_ASSERT"
GCC = ["g++", "-O1", "-fsanitize=address", ASSERT]
TSAN = ["g++", "-O1", "-fsanitize=thread", ASSERT]
CLANG = ["clang++", "-O1", "-fsanitize=fuzzer,address", "-DPBT_FUZZ", ASSERT]
# As users compile: optimised, without assertions (another compiler, and other sanitizers).
RELEASE = ["clang++", "-O2", "-DNDEBUG", "-fsanitize=address,signed-integer-overflow,float-cast-overflow,integer-divide-by-zero,shift", "-fno-sanitize-recover=all"]
ENV = dict(os.environ)
# Fill fresh memory with a byte for which doubles and integers are huge: reading uninitialised memory
# then has an effect that is deterministic and visible.
ENV["ASAN_OPTIONS"] = (
    "detect_leaks=0:exitcode=99:allocator_may_return_null=1:hard_rss_limit_mb=6000:"
    "max_malloc_fill_size=1000000:malloc_fill_byte=127"
)

ENV["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=99:report_signal_unsafe=0"


def compiler(meta):
    return TSAN if meta.get("sanitize") == "thread" else GCC


def binary(prop, meta, release):
    flags = meta.get("flags", [])
    if release:
        return build(meta["src"], RELEASE, prop + ".release", flags)
    return build(meta["src"], compiler(meta), prop, flags)


def load():
    with open(os.path.join(HERE, "checks.json")) as f:
        checks = json.load(f)
    for meta in checks.values():
        meta["flags"] = [i.replace("{HERE}", HERE).replace("{REPO}", REPO) for i in meta.get("flags", [])]
    return checks


def tree_hash(extra):
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "include"), os.path.join(REPO, "python"), os.path.join(HERE, "harness"), os.path.join(HERE, "props")]
    for root in roots:
        for d, _, files in sorted(os.walk(root)):
            for name in sorted(files):
                path = os.path.join(d, name)
                h.update(path.encode())
                with open(path, "rb") as f:
                    h.update(f.read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]


def build(src, compiler, name, flags=()):
    """Compile a harness; returns the binary (cached on the content of everything that is compiled)."""
    cmd = [*compiler, *FLAGS, *flags, os.path.join(HERE, "props", src + ".cpp")]
    out = os.path.join(HERE, "build", name, tree_hash(cmd))
    exe = os.path.join(out, "check")
    if os.path.exists(exe):
        return exe
    base = os.path.dirname(out)
    if os.path.isdir(base):
        shutil.rmtree(base)
    os.makedirs(out)
    tmp = exe + ".tmp"
    p = subprocess.run([*cmd, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        print(p.stdout[-6000:])
        print(f"ERROR: the harness {src} does not compile against {REPO}")
        sys.exit(2)
    os.rename(tmp, exe)
    return exe


def known_findings(prop):
    """Lines "finding: property=<id> replay=<file> <what fails>" of KNOWN_FINDINGS.txt"""
    ret = []
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) replay=(\S+) (.*)", line.strip())
                if m and m.group(1) == prop:
                    ret.append((m.group(2), m.group(3)))
    return ret


def is_release(path):
    with open(path) as f:
        return re.search(r"^variant release", f.read(), re.M) is not None


def search(exe, out, seed, tier, seconds, scale):
    """Seeded random search; returns the statistics per sub-property."""
    os.makedirs(out, exist_ok=True)
    cmd = [exe, "run", "--seed", str(seed), "--tier", tier, "--workers", str(WORKERS), "--out", out]
    cmd += ["--max-seconds", str(seconds), "--scale", str(scale)]
    if os.environ.get("VERIF_ONLY"):
        cmd += ["--only", os.environ["VERIF_ONLY"]]
    p = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode not in (0, 1, 3):
        print(p.stdout[-4000:])
        print(f"ERROR: the search ended with {p.returncode}")
        sys.exit(2)
    with open(os.path.join(out, "stats.json")) as f:
        return json.load(f)["subs"]


def replay(exe, path, out, shrink=False):
    p = subprocess.run(
        [exe, "replay", "--file", path, "--out", out, "--shrink", "1" if shrink else "0"],
        env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
    )
    return p.returncode, p.stdout


def fuzz(prop, meta, exe, out, seconds, seed, rdir):
    """Coverage-guided search (libFuzzer) of the same properties; returns (statistics, violations)."""
    fexe = build(meta["src"], CLANG, prop + ".fuzz", meta.get("flags", []))
    stats = {"executions": 0, "corpus": 0, "seconds": seconds, "jobs": WORKERS}
    bad = []

    def job(w):
        d = os.path.join(out, f"fuzz{w}")
        os.makedirs(d + "/corpus")
        env = dict(ENV)
        env["PBT_FUZZ_OUT"] = d
        env["ASAN_OPTIONS"] = ENV["ASAN_OPTIONS"].replace("exitcode=99", "exitcode=77")
        cmd = [
            fexe, d + "/corpus", f"-seed={seed * 100 + w + 1}", f"-max_total_time={seconds}", "-max_len=600",
            "-timeout=120", "-rss_limit_mb=3500", f"-artifact_prefix={d}/", "-print_final_stats=1",
        ]
        p = subprocess.run(cmd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", cwd=d)
        return d, p

    with concurrent.futures.ThreadPoolExecutor(WORKERS) as pool:
        for d, p in pool.map(job, range(WORKERS)):
            m = re.search(r"stat::number_of_executed_units:\s*(\d+)", p.stderr)
            stats["executions"] += int(m.group(1)) if m else 0
            stats["corpus"] += len(os.listdir(d + "/corpus"))
            found = [os.path.join(d, i) for i in os.listdir(d) if i.endswith(".replay")]
            for i in os.listdir(d):
                if i.startswith(("crash-", "timeout-")) and not found:
                    path = os.path.join(d, i + ".replay")
                    subprocess.run([exe, "convert", "--bytes", os.path.join(d, i), "--file", path, "--out", d], env=ENV)
                    if os.path.exists(path):
                        found.append(path)
            for path in found[:1]:
                rc, msg = replay(exe, path, d, shrink=True)
                if rc == 1:
                    dst = os.path.join(rdir, "fuzz-" + os.path.basename(d) + ".replay")
                    shutil.copy(path, dst)
                    bad.append((dst, msg))
    return stats, bad


def run(prop, tier):
    t0 = time.time()
    checks = load()
    meta = checks[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    out = os.path.join(HERE, "build", prop + ".run")
    rdir = os.path.join(HERE, "replays", prop)
    for d in (out, rdir):
        if os.path.isdir(d):
            shutil.rmtree(d)
        os.makedirs(d)
    release = meta.get("release", True) and os.environ.get("VERIF_RELEASE", "1") != "0"
    with concurrent.futures.ThreadPoolExecutor(2) as pool:
        jobs = [pool.submit(binary, prop, meta, r) for r in ([False, True] if release else [False])]
        exes = [i.result() for i in jobs]
    exe = exes[0]
    bad = []  # (replay, message)
    regress = 0

    # 1. saved cases: bypass the search
    cdir = os.path.join(HERE, "corpus", prop)
    saved = sorted(os.listdir(cdir)) if os.path.isdir(cdir) else []
    for name in saved:
        path = os.path.join(cdir, name)
        rc, msg = replay(exes[-1] if is_release(path) else exe, path, out)
        if rc not in (0, 1):
            print(f"ERROR: cannot replay corpus/{prop}/{name}: {msg}")
            sys.exit(2)
        regress += 1
        if rc == 1:
            dst = os.path.join(rdir, name)
            shutil.copy(os.path.join(cdir, name), dst)
            bad.append((dst, msg))

    # 2. known findings
    for path, what in known_findings(prop):
        path = os.path.join(HERE, path)
        rc, _ = replay(exes[-1] if is_release(path) else exe, path, out)
        if rc == 1:
            print(f"KNOWN-FINDING: property={prop} {what}")
        else:
            print(f"note: the known finding {path} does not fail any more")

    # 3. random search
    scale = float(os.environ.get("VERIF_SCALE") or meta.get("scale", 8) * (1 if tier == "quick" else 3))
    stats = search(exe, out, seed, tier, 360 if tier == "quick" else 3000, scale)
    rstats = []
    if release and not any(s["replay"] for s in stats):
        rstats = search(exes[1], out + "/release", seed + 1000003, tier, 150 if tier == "quick" else 1500, scale / 4)
    for s in stats + rstats:
        if s["replay"]:
            name = ("release-" if s in rstats else "") + os.path.basename(s["replay"])
            dst = os.path.join(rdir, name)
            shutil.copy(s["replay"], dst)
            bad.append((dst, s["status"] + "\n" + s["message"] + "\n" + s["case"]))

    # 4. coverage-guided search
    fstats = None
    if tier == "thorough" and not bad and meta.get("fuzz", True):
        fstats, fbad = fuzz(prop, meta, exe, out, int(os.environ.get("VERIF_FUZZ_SECONDS", "180")), seed, rdir)
        bad += fbad

    samples = []
    for s in stats:
        samples += [f"{s['name']}: {i}" for i in s["samples"][:2]]
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(s["evaluations"] for s in stats + rstats) + (fstats["executions"] if fstats else 0) + regress,
            "distinct_nontrivial": sum(s["distinct_nontrivial"] for s in stats + rstats),
            "rule": meta["rule"],
            "samples": samples,
            "discarded": sum(s["discarded"] for s in stats + rstats),
            "oracle_comparisons": sum(s["oracle_comparisons"] for s in stats + rstats),
            "saved_cases_replayed": regress,
            "per_subproperty": {
                s["name"]: {k: s[k] for k in ("cases", "evaluations", "discarded", "distinct_nontrivial", "oracle_comparisons", "wall_s", "labels")}
                for s in stats
            },
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bad),
    }
    if rstats:
        evidence["coverage"]["without_assertions"] = {
            s["name"]: {k: s[k] for k in ("cases", "evaluations", "discarded", "distinct_nontrivial", "oracle_comparisons", "wall_s")}
            for s in rstats
        }
    if fstats:
        evidence["coverage"]["coverage_guided"] = fstats
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)

    for path, msg in bad:
        print(f"VIOLATION property={prop} replay={path}")
        print("    " + msg.strip().replace("\n", "\n    ")[:3000])
    n = evidence["coverage"]
    print(
        f"{prop} {tier} seed={seed}: {n['evaluations']} cases, {n['distinct_nontrivial']} distinct non-trivial, "
        f"{len(bad)} violation(s), {evidence['wall_s']} s"
    )
    return 1 if bad else 0


def setup():
    """Nothing has to be prepared: every check compiles its own harness. Verify that this will work."""
    load()
    for tool in ("g++", "clang++"):
        if shutil.which(tool) is None:
            print(f"ERROR: {tool} not found")
            return 2
    for d in ("build", "evidence", "replays"):
        os.makedirs(os.path.join(HERE, d), exist_ok=True)
    return 0


def main():
    if sys.argv[1:] == ["--setup"]:
        return setup()
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":  # ID --replay FILE
        del sys.argv[1]
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        with open(sys.argv[2]) as f:
            prop = re.search(r"^property (\S+)", f.read(), re.M).group(1)
        exe = binary(prop, load()[prop], is_release(sys.argv[2]))
        out = os.path.join(HERE, "build", prop + ".run")
        os.makedirs(out, exist_ok=True)
        rc, msg = replay(exe, os.path.abspath(sys.argv[2]), out)
        print(msg)
        if rc == 1:
            print(f"VIOLATION property={prop} replay={sys.argv[2]}")
        return rc
    if len(sys.argv) < 2 or sys.argv[1] not in load() or sys.argv[2:3] not in ([], ["quick"], ["thorough"]):
        print(__doc__)
        return 2
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return run(sys.argv[1], tier)


if __name__ == "__main__":
    sys.exit(main())
