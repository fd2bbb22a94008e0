#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough] [--time SEC] [--seed N]   decide one property by seeded simulation
check.py --replay FILE                                            replay a violation (rebuilds from /repo first)
check.py --build-all                                              compile everything (setup)
check.py --determinism PROP [--runs N]                            large determinism check

Exit: 0 held on everything explored; 1 + 'VIOLATION property=.. replay=..'; 2 error of the check."""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("KELSIM_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, HERE)
from props_config import PROPS, REAL, STUB, ASSUME  # noqa: E402

CXX = os.environ.get("KELSIM_CXX", "g++")
RT_FLAGS = ["-std=c++20", "-O2", "-g", "-fno-pie", "-w"]
TU_FLAGS = ["-std=c++20", "-O1", "-g", "-fno-pie", "-fsanitize=thread", "--param=tsan-instrument-func-entry-exit=0", "-foptimize-sibling-calls",
            "-fsanitize=unreachable", "-fsanitize-trap=unreachable", "-include", f"{HERE}/sim/sim_atomic_wait.h",
            f"-I{REPO}/include", f"-I{HERE}/sim", f"-I{HERE}/props", "-D_GLIBCXX_ASSERTIONS", "-w"]
WRAP = "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset"


def die(msg):
    print("ERROR: " + msg, file=sys.stderr, flush=True)
    sys.exit(2)


def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, d).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def compile_obj(name, src, flags, key, objdir, post=None):
    """content addressed: key covers every input (sources of the simulator, workloads, /repo headers, flags)"""
    out = os.path.join(objdir, f"{name}-{key[:20]}.o")
    if os.path.exists(out):
        return out
    tmp = f"{out}.{os.getpid()}.o"
    rc, log = run([CXX, *flags, "-c", src, "-o", tmp])
    if rc:
        die(f"compiling {src} failed:\n{log[-6000:]}")
    if post:
        rc, log = run(post + [tmp])
        if rc:
            die(log)
    os.replace(tmp, out)
    return out


def build(tus):
    objdir = os.path.join(BUILD, "obj")
    os.makedirs(objdir, exist_ok=True)
    ver = run([CXX, "--version"])[1]
    krt = hashlib.sha256((ver + tree_hash([f"{HERE}/sim"]) + repr(RT_FLAGS)).encode()).hexdigest()
    ktu = hashlib.sha256((krt + tree_hash([f"{HERE}/props", f"{REPO}/include"]) + repr(TU_FLAGS)).encode()).hexdigest()
    jobs = [("simrt", f"{HERE}/sim/simrt.cpp", RT_FLAGS, krt, objdir,
             ["objcopy", "--redefine-sym", "memcpy=__real_memcpy", "--redefine-sym", "memmove=__real_memmove",
              "--redefine-sym", "memset=__real_memset"]),
            ("driver", f"{HERE}/sim/driver.cpp", RT_FLAGS, krt, objdir)]
    jobs += [(t, f"{HERE}/props/{t}.cpp", TU_FLAGS, ktu, objdir) for t in tus]
    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        objs = [f.result() for f in [ex.submit(compile_obj, *j) for j in jobs]]
    out = os.path.join(BUILD, "bin", "-".join(sorted(tus)) + "-" + ktu[:12])
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if not os.path.exists(out):
        tmp = f"{out}.{os.getpid()}"
        rc, log = run([CXX, "-no-pie", *objs[2:], objs[0], objs[1], "-o", tmp, WRAP, "-ldl", "-pthread"])
        if rc:
            die("link failed:\n" + log[-4000:])
        os.replace(tmp, out)
    return out


def known_findings(prop):
    sigs, lines = [], []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) (\S+:\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                sigs.append(m.group(2))
                lines.append(line.strip())
    return sigs, lines


def check(prop, tier, seed, tsec):
    t0 = time.time()
    cfg = PROPS[prop]
    limit = tsec or (cfg.get("quick", 25) if tier == "quick" else cfg.get("thorough", 600))
    binary = build(cfg["tus"])
    t_build = time.time() - t0
    work = os.path.join(BUILD, "run")
    os.makedirs(work, exist_ok=True)
    stats_file = os.path.join(work, f"{prop}-{os.getpid()}.json")
    replay = os.path.join(work, f"{prop}.replay")
    sigs, klines = known_findings(prop)
    kf = os.path.join(work, f"{prop}-{os.getpid()}.known")
    with open(kf, "w") as f:
        f.write("".join(s + "\n" for s in sigs))
    scen = ",".join(f"{k}:{v}" for k, v in cfg["scenarios"].items())
    cmd = [binary, "search", "--prop", prop, "--seed", str(seed), "--time", str(limit), "--out", stats_file, "--replay-out", replay,
           "--known", kf, "--scenarios", scen, "--minimise", "20" if tier == "quick" else "60"]
    if cfg.get("ignore"):
        cmd += ["--ignore", ",".join(cfg["ignore"])]
    if cfg.get("only"):
        cmd += ["--only", ",".join(cfg["only"])]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    rc = r.returncode
    out = r.stdout
    viol_line = None
    for line in out.splitlines():
        if line.startswith("VIOLATION "):
            viol_line = line
        else:
            print(line)
    try:
        st = json.load(open(stats_file))
    except Exception as e:
        die(f"no statistics from the search (exit {rc}): {e}\n{out[-3000:]}")
    det = None
    if rc == 0:
        n = 400 if tier == "quick" else 6000
        d = subprocess.run([binary, "determinism", "--seed", str(seed), "--runs", str(n), "--scenarios", scen], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace")
        det = d.stdout.strip().splitlines()[-1] if d.stdout.strip() else "no output"
        print(det)
        if d.returncode:
            print(d.stdout[-3000:], file=sys.stderr)
            rc = 2
    for k in klines:
        print(k)
    search_wall = max(st["search_wall"], 1e-6)
    faults = {k: v for k, v in st["faults"].items() if k not in ("SCHED", "CONDPICK")}
    cov = {
        "evaluations": st["runs"],
        "distinct_nontrivial": st["distinct_nontrivial"],
        "rule": "One evaluation is one simulated execution of one scenario: the whole program (workload drawn from the seed, library code, "
                "threads, blocking, clock, allocator) under the seeded scheduler. Two executions are the same if they have the same scenario, "
                "the same workload draws and the same sequence of (thread, operation) scheduling points. Non-trivial: at least two "
                "preemptions that were a choice of the scheduler, or at least one injected fault.",
        "samples": st["samples"] or ["(no run with faults)"],
        "scenarios": st["scenarios"],
        "distinct_interleavings": st["distinct"],
        "runs_with_faults": st["runs_with_faults"],
        "faults_injected": faults,
        "scheduler_decisions": {k: st["faults"][k] for k in ("SCHED", "CONDPICK") if k in st["faults"]},
        "conditions_reached": st["probes"],
        "scheduling_steps": st["steps"],
        "preemptions": st["preemptions"],
        "instrumented_memory_accesses": st["memory_accesses"],
        "simulated_seconds": st["sim_seconds"],
        "simulated_threads": st["threads"],
        "runs_per_hour": int(st["runs"] / search_wall * 3600),
        "seeds_per_hour": int(st["runs"] / search_wall * 3600),
        "seeds_note": "every run has its own PRNG seed, derived from VERIF_SEED and the run number",
        "search_seconds": round(search_wall, 2),
        "build_seconds": round(t_build, 2),
        "determinism_check": det or "not run (violation found first)",
        "components_real": cfg.get("real", REAL),
        "components_simulated": STUB,
        "other_property_violations_ignored": st.get("ignored", []),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ASSUME + cfg.get("assume", []), "wall_s": round(time.time() - t0, 2),
          "violations": 1 if viol_line else 0}
    if viol_line:
        ev["coverage"]["violation"] = st["violation"]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    evf = os.path.join(HERE, "evidence", f"{prop}.json")
    with open(evf + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(evf + ".tmp", evf)
    for f in (stats_file, kf):
        if os.path.exists(f):
            os.unlink(f)
    if rc == 1 and viol_line:
        print(viol_line, flush=True)
        sys.exit(1)
    if rc:
        die(f"search ended with exit code {rc}")
    print(f"OK property={prop} tier={tier} seed={seed} runs={st['runs']} wall={ev['wall_s']}s")
    sys.exit(0)


def main():
    a = sys.argv[1:]

    def opt(name, default=None):
        if name in a:
            i = a.index(name)
            v = a[i + 1]
            del a[i:i + 2]
            return v
        return default
    seed = int(opt("--seed", os.environ.get("VERIF_SEED", "1") or "1"))
    tier = opt("--tier", os.environ.get("VERIF_TIER", "quick") or "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    tsec = float(opt("--time", "0"))
    runs = opt("--runs", "20000")
    rp = opt("--replay")
    if rp:
        prop = None
        for line in open(rp):
            if line.startswith("property "):
                prop = line.split()[1]
                break
        if prop not in PROPS:
            die("not a replay file: " + rp)
        os.execv(build(PROPS[prop]["tus"]), ["sim", "replay", rp])
    if "--build-all" in a:
        for p in PROPS.values():
            build(p["tus"])
        print("built")
        return
    if not a or not any(x in PROPS for x in a):
        print(__doc__)
        sys.exit(2)
    if "--determinism" in a:
        p = [x for x in a if x in PROPS][0]
        os.execv(build(PROPS[p]["tus"]), ["sim", "determinism", "--seed", str(seed), "--runs", runs, "--scenarios",
                                         ",".join(f"{k}:{v}" for k, v in PROPS[p]["scenarios"].items())])
    check([x for x in a if x in PROPS][0], tier, seed, tsec)


if __name__ == "__main__":
    main()
