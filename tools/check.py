#!/usr/bin/env python3
"""Builds the simulator against /repo's working tree and decides one property.

  check.py --build            build only
  check.py C05                decide property C05 (VERIF_SEED, VERIF_TIER)
  check.py --replay FILE      replay a violation
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
EVID = os.environ.get("VERIF_EVIDENCE", HERE)
JOBS = int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4
sys.path.insert(0, os.path.join(HERE, "tools"))
from budget import BUDGET  # noqa: E402

CXX = "g++"
DEFS = ["-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS",
        "-D__STDC_LIMIT_MACROS", "-D_GLIBCXX_ASSERTIONS"]
INC = ["-I/usr/lib/llvm-14/include", f"-I{REPO}/include", "-I/usr/include/libxml2",
       f"-I{HERE}/sim"]
FLAGS = ["-std=c++17", "-fPIC", "-g0", "-O1", "-w", "-fno-omit-frame-pointer",
         "-fsanitize=address"]
LIBS = ["-L/usr/lib/llvm-14/lib", "-lLLVM-14", "-lxml2", "-lz3", "-ldl", "-lpthread"]


def confgen():
    """Need the CSV library, for which sim/stub stands in.  If they do not
    compile with it, the program is built without the configuration generator."""
    return ([p for p in (f"{REPO}/lib/Sampling/SampleSetParser.cpp",) if os.path.exists(p)] +
            sorted(glob.glob(f"{REPO}/tools/config-generator/*.cpp")))


def sources():
    repo = (sorted(glob.glob(f"{REPO}/lib/Feature/*.cpp")) +
            sorted(glob.glob(f"{REPO}/lib/Configuration/*.cpp")) +
            sorted(glob.glob(f"{REPO}/lib/Solver/*.cpp")) +
            [p for p in (f"{REPO}/lib/Sampling/SampleSetWriter.cpp",) if os.path.exists(p)] +
            sorted(glob.glob(f"{REPO}/tools/fm-viewer/*.cpp")) + confgen())
    sim = sorted(glob.glob(f"{HERE}/sim/*.cpp"))
    return repo, sim


def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def headers(root):
    r = []
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith((".h", ".hpp", ".def", ".inc")):
                r.append(os.path.join(d, f))
    return sorted(r)


def build():
    """Objects are reused only if the sources, every header of /repo and of the
    simulator, and the flags are byte for byte the same."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    repo, sim = sources()
    hdr = headers(f"{REPO}/include") + headers(f"{REPO}/lib") + headers(f"{REPO}/tools")
    base = digest(hdr) + " ".join(FLAGS + DEFS + INC)
    simhdr = digest(headers(f"{HERE}/sim"))
    todo, objs = [], []
    for src in repo + sim:
        isrepo = src in repo
        plain = os.path.basename(src) in ("core.cpp", "heap.cpp", "sched.cpp", "disk.cpp", "z3seam.cpp")
        key = hashlib.sha256((digest([src]) + ("" if plain else base) +
                              ("" if isrepo and src not in confgen() else simhdr) + " ".join(FLAGS) + "+pc").encode()).hexdigest()
        o = os.path.join(BUILD, os.path.relpath(src, "/").replace("/", "_") + ".o")
        objs.append(o)
        try:
            if open(o + ".key").read() == key and os.path.exists(o):
                continue
        except OSError:
            pass
        extra = ["-Dmain=fm_viewer_main"] if "fm-viewer" in src else []
        if src in confgen():
            extra = [f"-I{HERE}/sim/stub"]
            if "config-generator" in src:
                extra.append("-Dmain=config_generator_main")
        if plain:  # the seams themselves are not instrumented
            fl = [f for f in FLAGS if not f.startswith("-fsanitize")] if os.path.basename(src) in ("heap.cpp",) else FLAGS
        else:
            fl = FLAGS
        if not plain:  # a switch may happen at every basic block
            fl = fl + ["-fsanitize-coverage=trace-pc"]
        cmd = [CXX] + fl + DEFS + INC + extra + ["-c", src, "-o", o]
        todo.append((o, key, cmd, os.path.getsize(src)))
    exe = os.path.join(BUILD, "vsim")
    ekey = hashlib.sha256("".join(objs).encode()).hexdigest()
    todo.sort(key=lambda t: -t[3])
    failed = None
    running, left = [], []
    while (todo or running) and not failed:
        while todo and len(running) < JOBS:
            o, key, cmd, _ = todo.pop(0)
            if os.path.exists(o + ".key"):
                os.unlink(o + ".key")
            running.append((subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT), o, key, cmd))
            if os.path.exists(exe):
                os.unlink(exe)
        p, o, key, cmd = running.pop(0)
        out = p.communicate()[0]
        if p.returncode and any(c in cmd for c in confgen()):
            sys.stderr.write("left out: " + " ".join(cmd) + "\n" + out.decode(errors="replace")[-3000:] + "\n")
            left.append(o)
        elif p.returncode:
            failed = (cmd, out.decode(errors="replace"))
        else:
            open(o + ".key", "w").write(key)
    for p, *_ in running:
        p.wait()
    if failed:
        sys.stderr.write(" ".join(failed[0]) + "\n" + failed[1][-6000:] + "\n")
        sys.exit(3)
    if left:  # the tool as a whole
        tool = [os.path.join(BUILD, os.path.relpath(src, "/").replace("/", "_") + ".o") for src in confgen()]
        objs = [o for o in objs if o not in tool]
        ekey += " without " + " ".join(tool)
    try:
        same = open(exe + ".key").read() == ekey
    except OSError:
        same = False
    if not (os.path.exists(exe) and same):
        cmd = [CXX, "-fsanitize=address", "-rdynamic"] + objs + LIBS + ["-o", exe]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            sys.stderr.write(r.stdout.decode(errors="replace")[-6000:])
            sys.exit(3)
        open(exe + ".key", "w").write(ekey)
    fcntl.flock(lock, fcntl.LOCK_UN)
    return exe


def known_findings(pid):
    """(key, text) of the listed findings of the property."""
    r = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                r.append((m.group(2), m.group(3).strip()))
    return r


def words(path):
    h = set()
    try:
        with open(path, "rb") as f:
            d = f.read()
        for i in range(0, len(d) - 7, 8):
            h.add(d[i:i + 8])
    except OSError:
        pass
    return h


def main():
    a = sys.argv[1:]
    if a[:1] == ["--build"]:
        build()
        return 0
    exe = build()
    if a[:1] == ["--replay"]:
        return subprocess.run([exe, "replay", a[1], "-v"]).returncode
    pid = a[0]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    b = BUDGET[pid]
    runs, wall = b[tier]
    out = os.path.join(BUILD, "out", pid)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    known = known_findings(pid)
    kf = os.path.join(out, "known")
    with open(kf, "w") as f:
        for k, _ in known:
            f.write(k + "\n")
    cmd = [exe, "run", pid, "--seed", str(seed), "--runs", str(runs), "--jobs", str(JOBS),
           "--wall", str(wall), "--out", out, "--known", kf]
    if tier == "thorough":
        cmd.append("--thorough")
    p = subprocess.run(cmd, stdout=subprocess.PIPE)
    text = p.stdout.decode(errors="replace")
    sys.stdout.write(text)
    wall_s = time.time() - t0
    num = dict(runs=0, discarded=0, steps=0, simtime=0, detchecked=0, detmismatch=0,
               overflow=0, choices=0, events=0, timeouts=0)
    counters, findings, samples, viols = {}, {}, [], []
    for w in sorted(glob.glob(out + "/w*.txt")):
        for l in open(w, errors="replace"):
            k, _, v = l.rstrip("\n").partition(" ")
            if k in num:
                num[k] += int(v)
            elif k == "counter":
                n, c = v.rsplit(" ", 1)
                counters[n] = counters.get(n, 0) + int(c)
            elif k == "finding":
                n, c = v.split(" ", 1)
                findings[c] = findings.get(c, 0) + int(n)
            elif k == "viol":
                viols.append(v)
            elif k == "sample" and len(samples) < 12:
                samples.append(v)
    states, scheds, hashes = set(), set(), set()
    for w in glob.glob(out + "/w*.states"):
        states |= words(w)
    for w in glob.glob(out + "/w*.scheds"):
        scheds |= words(w)
    for w in glob.glob(out + "/w*.hashes"):
        hashes |= words(w)
    rule = ""
    for l in subprocess.run([exe, "list"], stdout=subprocess.PIPE).stdout.decode().splitlines():
        n, _, r = l.partition("\t")
        if n == pid:
            rule = r
    faults = {k[6:]: v for k, v in counters.items() if k.startswith("fault.")}
    reach = {k: v for k, v in counters.items() if not k.startswith("fault.")}
    rate = num["runs"] / max(wall_s, 1e-6) * 3600
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": b["level"],
        "coverage": {
            "evaluations": num["runs"],
            "distinct_nontrivial": len(hashes),
            "rule": "one case is one simulated run, fully determined by its seed; "
                    "non-trivial: " + rule + "; distinct: by the hash of its complete event log",
            "samples": samples,
            "simulated_runs_per_hour": int(rate),
            "seeds": {"base": seed, "count": num["runs"], "per_hour": int(rate)},
            "discarded_as_trivial": num["discarded"],
            "simulated_steps": num["steps"],
            "simulated_time_s": num["simtime"] / 1e6,
            "faults_injected": faults,
            "conditions_reached": reach,
            "distinct_states": len(states),
            "distinct_states_measure": "structural hashes of reached model/disk states",
            "distinct_interleavings": len(scheds),
            "distinct_interleavings_measure": "hash of the sequence of scheduling decisions"
            if b.get("sched") else "one action sequence per run (hash of scheduling decisions)",
            "choices_drawn": num["choices"],
            "log_events": num["events"],
            "determinism_audit": {"runs_executed_twice": num["detchecked"],
                                  "log_hash_mismatches": num["detmismatch"]},
            "known_finding_hits": findings,
            "components": {"real": b["real"], "stub": b["stub"]},
        },
        "assumptions": b.get("assume", []),
        "wall_s": round(wall_s, 2),
        "violations": len(viols),
    }
    os.makedirs(os.path.join(EVID, "evidence"), exist_ok=True)
    tmp = os.path.join(EVID, "evidence", f".{pid}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, "evidence", f"{pid}.json"))
    print(f"{pid}: {num['runs']} runs, {len(hashes)} distinct non-trivial, {len(viols)} violating, "
          f"{wall_s:.1f} s; audit {num['detchecked']}/{num['detmismatch']}")
    for k, t in known:
        if findings.get(k):
            print(f"KNOWN-FINDING: property={pid} {t}")
    if p.returncode == 0:
        if num["detmismatch"]:
            print("the determinism audit failed", file=sys.stderr)
            return 3
        if num["runs"] == 0:
            return 3
        return 0
    if p.returncode == 1:
        m = re.search(r"^FAIL (\S+) ", text, re.M)
        if m:
            rp = m.group(1)
            # a fresh process has to fail in the same way
            q = subprocess.run([exe, "replay", rp], stdout=subprocess.PIPE)
            if q.returncode == 1:
                rel = os.path.relpath(rp, HERE)
                print(f"VIOLATION property={pid} replay={rel}")
                return 1
            print("replay in a fresh process did not reproduce the violation", file=sys.stderr)
    return 3


if __name__ == "__main__":
    sys.exit(main())
