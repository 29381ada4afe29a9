#!/usr/bin/env python3
"""Builds the simulator against /repo's working tree and runs one property's check.

check.py C01            the check (VERIF_TIER=quick|thorough, VERIF_SEED)
check.py --setup        builds every configuration the quick checks use
check.py --replay FILE  re-runs a replay file on the configuration it names
"""
import concurrent.futures as cf, hashlib, json, os, re, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("COROSIM_REPO", "/repo")
TOOLCHAIN = "1.99.1"
X64, X86 = "x86_64-unknown-linux-gnu", "i686-unknown-linux-gnu"


def configs():
    c = {}
    for a, t in (("x64", X64), ("x86", X86)):
        for prof in ("release", "debug"):
            rel = prof == "release"
            c[f"{a}-{prof}-unwind"] = (t, rel, "unwind,default-stack", "", False)
            c[f"{a}-{prof}-asm"] = (t, rel, "asm-unwind,default-stack", "", True)
            if a == "x64" and rel:
                # Wider vectors, and instructions that insist on alignment.
                c[f"{a}-{prof}-unwind-v3"] = (t, rel, "unwind,default-stack", "-C target-cpu=x86-64-v3", False)
            c[f"{a}-{prof}-nounwind"] = (t, rel, "default-stack", "", False)
            if a == "x64":
                c[f"{a}-{prof}-unwind-fp"] = (t, rel, "unwind,default-stack,fp", "-C force-frame-pointers=yes", False)
        c[f"{a}-release-unwind-fp"] = (t, True, "unwind,default-stack,fp", "-C force-frame-pointers=yes", False)
        c[f"{a}-release-asm-fp"] = (t, True, "asm-unwind,default-stack,fp", "-C force-frame-pointers=yes", True)
        c[f"{a}-release-nounwind-nostd"] = (t, True, "", "", False)
        c[f"{a}-release-unwind-nostd"] = (t, True, "unwind", "", False)
    return c


CONFIGS = configs()


def has_v3():
    need = {"avx", "avx2", "bmi1", "bmi2", "f16c", "fma", "abm", "movbe", "xsave"}
    for line in open("/proc/cpuinfo"):
        if line.startswith("flags"):
            return need <= set(line.split(":")[1].split())
    return False


# What each check runs: configuration -> share of the planned runs.
UN = ["x64-release-unwind", "x86-release-unwind", "x64-debug-unwind", "x86-debug-unwind"]
ASM = ["x64-release-asm", "x86-release-asm", "x64-debug-asm", "x86-debug-asm", "x64-release-asm-fp"]
V3 = ["x64-release-unwind-v3"]
NOU = ["x64-release-nounwind", "x86-release-nounwind"]
ALL = UN + NOU + ["x64-debug-nounwind", "x86-debug-nounwind"] + [
    "x64-release-unwind-fp", "x64-release-nounwind-nostd", "x64-release-unwind-nostd"] + V3
ALLU = [c for c in ALL if "nounwind" not in c]
FP = ["x64-release-unwind-fp", "x86-release-unwind-fp", "x64-debug-unwind-fp"]


class Spec:
    def __init__(self, quick, thorough, runs, deep, cap=45, slow=3, note=""):
        self.quick, self.thorough, self.runs, self.deep, self.cap, self.slow, self.note = quick, thorough, runs, deep, cap, slow, note


SPECS = {
    "C01": Spec(UN + NOU[:1], ALL, 16000, 400000),
    "C02": Spec(UN + NOU[:1], ALL, 24000, 400000),
    "C03": Spec(UN + V3 + NOU[:1], ALL, 16000, 400000),
    "C04": Spec(UN, ALLU, 24000, 300000),
    "C05": Spec(UN, ALLU, 24000, 300000),
    "C06": Spec(UN, ALLU, 20000, 300000),
    "C07": Spec(UN + V3 + NOU[:1], ALL, 14000, 400000),
    "C08": Spec(UN + V3 + NOU[:1], ALL, 8000, 300000, slow=5),
    "C09": Spec(UN, ALLU, 6000, 200000),
    "C10": Spec(FP, FP, 6000, 200000),
    "C11": Spec(UN, [c for c in ALL if "nostd" not in c], 16000, 600000),
    "C12": Spec(UN + NOU[:1], [c for c in ALL if "nostd" not in c], 14000, 600000),
    "C13": Spec(UN + NOU[:1], ALL, 14000, 400000),
    "C14": Spec(UN, ALLU, 8000, 200000),
    "C15": Spec(NOU + ["x64-debug-nounwind", "x86-debug-nounwind", "x64-release-nounwind-nostd"],
                [c for c in ALL if "nounwind" in c] + ["x86-release-nounwind-nostd"], 8000, 300000),
    "C16": Spec(UN + V3 + NOU[:1], ALL, 20000, 800000),
    "C18": Spec(UN + NOU[:1], [c for c in ALL if "nostd" not in c], 9000, 300000),
    "C19": Spec(UN + NOU[:1], [c for c in ALL if "nostd" not in c], 20000, 800000),
    "C22": Spec(ASM, ASM + ["x86-release-asm-fp"], 20000, 300000),
    "C17": Spec(UN + NOU[:1], ALL, 1600, 40000),
}

COMPONENTS = {
    "real": "all of corosensei (coroutine, stack, unwind, util, trap and arch code, compiled unmodified from /repo), "
            "Rust's std panic machinery, libgcc's unwinder, the CPU's own exceptions and single-step traps, the host kernel's memory protection",
    "stub": "mmap/munmap/mprotect/sysconf and the Valgrind client requests' environment go through the simulator's own definitions "
            "(placement, page size and failures are chosen by the seed; granted requests are carried out by the real kernel); "
            "thread scheduling is a baton passed by the seeded scheduler; the time source is the step counter (corosensei reads no clock)",
}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def repo_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml")):
                p = os.path.join(root, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    for root, dirs, files in os.walk(os.path.join(HERE, "sim")):
        dirs[:] = sorted(d for d in dirs if d != "target")
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(p.encode())
            h.update(open(p, "rb").read())
    return h.hexdigest()


def target_dir(name):
    return os.path.join(HERE, "target", name)


def binary(name):
    t, rel, *_ = CONFIGS[name]
    return os.path.join(target_dir(name), t, "release" if rel else "debug", "corosim")


def build(name, stamp):
    t, rel, feat, flags, boot = CONFIGS[name]
    td = target_dir(name)
    env = dict(os.environ, RUSTUP_TOOLCHAIN=TOOLCHAIN, RUSTFLAGS=flags, CARGO_NET_OFFLINE="true")
    env.pop("CARGO_ENCODED_RUSTFLAGS", None)
    env.pop("CARGO_TARGET_DIR", None)
    env.pop("CARGO_BUILD_TARGET", None)
    env.pop("RUSTC_BOOTSTRAP", None)
    if boot:
        env["RUSTC_BOOTSTRAP"] = "1"
    cargo = ["cargo"]
    sim = os.path.join(HERE, "sim")
    sfile = os.path.join(td, "stamp")
    if not os.path.exists(sfile) or open(sfile).read() != stamp:
        if os.path.isdir(td):
            subprocess.run(cargo + ["clean", "--offline", "-p", "corosensei", "-p", "corosim", "--target", t, "--target-dir", td]
                           + (["--release"] if rel else []), cwd=sim, env=env, capture_output=True)
    cmd = cargo + ["build", "--offline", "--target", t, "--no-default-features", "--features", feat, "--target-dir", td]
    if rel:
        cmd.append("--release")
    r = subprocess.run(cmd, cwd=sim, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        return f"build of {name} failed:\n{r.stderr[-3000:]}"
    with open(sfile, "w") as f:
        f.write(stamp)
    return None


def build_all(names):
    """Builds the configurations; returns those that could not be built (a change
    may leave a feature combination uncompilable that the repository's own suite
    never builds: the others are still judged)."""
    stamp = repo_hash()
    order = sorted(names, key=lambda n: not CONFIGS[n][1])
    with cf.ThreadPoolExecutor(min(8, os.cpu_count() or 4)) as ex:
        errs = {n: e for n, e in zip(order, ex.map(lambda n: build(n, stamp), order)) if e}
    # Once more, one at a time, in case the machine was short of something.
    errs = {n: e for n in errs if (e := build(n, stamp))}
    for e in errs.values():
        log(e)
    if len(errs) == len(names):
        sys.exit(2)
    return list(errs)


def run_prop(prop):
    spec = SPECS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    deep = tier == "thorough"
    names = spec.thorough if deep else spec.quick
    names = [n for n in dict.fromkeys(names) if not n.endswith("-v3") or has_v3()]
    count = spec.deep if deep else spec.runs
    t0 = time.time()
    planned = names
    unbuilt = build_all(names)
    t_build = time.time() - t0
    log(f"{prop}: {len(names) - len(unbuilt)} of {len(names)} configurations built in {t_build:.1f} s")
    out = os.path.join(HERE, "out", prop)
    os.makedirs(out, exist_ok=True)
    for f in os.listdir(out):
        os.unlink(os.path.join(out, f))
    cores = os.cpu_count() or 4
    cap = spec.cap if not deep else 540 * min(1.0, cores / len(names))
    procs, lock, stop = {}, threading.Lock(), threading.Event()

    def one(name):
        if stop.is_set():
            return name, None, ""
        res = os.path.join(out, f"{name}.stats.json")
        n = count if CONFIGS[name][1] else count // (spec.slow + name.startswith("x86"))
        cmd = [binary(name), "batch", "--prop", prop, "--seed", str(seed), "--from", str(planned.index(name) * 10_000_000), "--count", str(n),
               "--cap", str(cap), "--out", res, "--replays", out]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        with lock:
            procs[name] = p
        try:
            so, se = p.communicate(timeout=cap + 150)
        except subprocess.TimeoutExpired:
            p.kill()
            so, se = p.communicate()
            return name, 2, "timed out\n" + se
        if p.returncode == 1:
            stop.set()
            with lock:
                for q in procs.values():
                    if q.poll() is None:
                        q.terminate()
        return name, p.returncode, so + se

    names = [n for n in planned if n not in unbuilt]
    results, found, errors = [], [], []
    with cf.ThreadPoolExecutor(cores) as ex:
        for name, rc, text in ex.map(one, names):
            f = re.findall(r"^FOUND (.*)$", text, re.M)
            if f:
                found += f
            elif rc not in (0, None) and not (stop.is_set() and rc == -15):
                errors.append(f"{name}: exit {rc}\n{text[-2000:]}")
            res = os.path.join(out, f"{name}.stats.json")
            if os.path.exists(res):
                results.append(json.load(open(res)))
    wall = time.time() - t0
    write_evidence(prop, tier, seed, results, found, wall, t_build, spec, unbuilt)
    for r in results:
        log(f"  {r['config']}: {r['runs']}/{r['planned']} runs, {r['distinct_nontrivial']} distinct non-trivial, "
            f"{r['aborted']} aborted as expected, {r['foreign']} other, {r['secs']:.1f} s")
        for m in r["foreign_msgs"]:
            log(f"    not this property: {m}")
    if found:
        for p in found:
            d = json.load(open(p))
            log(f"  {d['config']}: {d['class']}: {d['message']}")
            for e in d["events"][-25:]:
                log(f"    {e}")
            print(f"VIOLATION property={prop} replay={p}", flush=True)
        return 1
    if errors:
        log("\n".join(errors))
        return 2
    if not results or sum(r["runs"] for r in results) == 0:
        log("nothing was run")
        return 2
    print(f"{prop}: held on {sum(r['runs'] for r in results)} runs ({wall:.0f} s)")
    return 0


def write_evidence(prop, tier, seed, results, found, wall, t_build, spec, unbuilt):
    counters = {}
    for r in results:
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
    runs = sum(r["runs"] for r in results)
    secs = max([r["secs"] for r in results] or [0]) or 1e-9
    steps = counters.get("Steps", counters.get("Ops", 0))
    d = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in results),
            "rule": "one evaluation is one simulated run: a seeded random schedule of API operations, context switches, panics, traps, "
                    "destructors, thread hand-overs and injected faults, judged after every step against an executable reference model. "
                    "Two runs are distinct when the hash of the full event history differs (within one configuration); a run is non-trivial "
                    "when at least one operation this property is about happened in it.",
            "samples": [s for r in results[:3] for s in r["samples"][:1]],
            "per_configuration": [{k: r[k] for k in ("config", "runs", "planned", "distinct", "distinct_nontrivial", "nontrivial",
                                                     "aborted", "foreign", "secs", "trace_hash")} for r in results],
            "runs_per_hour": int(runs / secs * 3600),
            "seeds_per_hour": int(runs / secs * 3600),
            "simulated_steps": steps,
            "simulated_time": "corosensei reads no clock: simulated time is the step counter",
            "counters": counters,
            "faults_injected": {k: v for k, v in counters.items() if k in FAULTS},
            "components": COMPONENTS,
            "build_s": round(t_build, 1),
            "configurations_not_built": unbuilt,
        },
        "assumptions": [
            "each run's seed is mix(VERIF_SEED, property, run index); a run is a pure function of it and of the compiled code",
            "only the x86-64 and i686 Linux targets are executed; other architectures and Windows are outside the sandbox",
        ],
        "wall_s": round(wall, 2),
        "violations": len(found),
    }
    if spec.note:
        d["assumptions"].append(spec.note)
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    tmp = os.path.join(ev, f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(d, f, indent=1)
    os.replace(tmp, os.path.join(ev, f"{prop}.json"))


FAULTS = set("""Panic PanicCross PanicOnStack PanicOnParent Swallow Rethrow Replace CatchForced DropUnstarted DropSuspended ForceUnstarted
ForceSuspended ForcedOnStack ForcedNested Bomb CleanupSuspend CleanupResume Trap TrapPanic TrapExec TrapOnReparent AsyncTrap Overflow
MmapFail MprotectFail OomArena SizeOverflow CapRefused OveralignCap IntoStackRefused ResumeDone RefusedResumeVal Reset AbortDrop
AbortPanic NoUnwindForce LibSwitch UnwindSwitch LockWaits StepSignals ThreadSwitch Migrate OwnDrop Reparent""".split())


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        names = [n for n in dict.fromkeys(n for s in SPECS.values() for n in s.quick) if not n.endswith("-v3") or has_v3()]
        build_all(names)
        return 0
    if a and a[0] == "--replay":
        c = json.load(open(a[1]))["config"]
        build_all([c])
        return subprocess.run([binary(c), "replay", a[1]]).returncode
    if len(a) != 1 or a[0] not in SPECS:
        log(__doc__)
        return 2
    return run_prop(a[0])


if __name__ == "__main__":
    sys.exit(main())
