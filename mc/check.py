#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide one property on /repo's working tree
   check.py --replay FILE                run a recorded counterexample again, with its trace
   check.py --setup                      build everything once (only warms the object cache)

Builds the sources of /repo together with the scenario files (h/*.cpp), lets the runtime (rt.cpp) enumerate every
scenario of the property, and writes /verif/evidence/PROPERTY.json. Nothing here is random."""
import fnmatch, glob, hashlib, json, os, queue, re, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.environ.get("MC_BUILD", os.path.join(VERIF, "build"))
JOBS = int(os.environ.get("MC_JOBS", "0")) or len(os.sched_getaffinity(0))
T0 = time.time()

# harness -> (extra instrumented repo sources, extra uninstrumented file)
HARNESS = {
    "sem": dict(props="C01 C02 C03 C04 C05 C23 C24"),
    "ring": dict(props="C08 C09 C10 C23 C24", far=True),
    "mutex": dict(props="C06 C23 C24"),
    "prio": dict(props="C07"),
    "pool": dict(props="C11 C12 C13 C14 C15 C23 C24"),
    "mq": dict(props="C16 C17 C18 C19 C20 C23 C24 C25"),
    "mqseq": dict(props="C16 C17 C18 C20 C21 C22 C24 C25"),
    "exc": dict(props="C01 C03 C10 C11 C12 C13 C14 C15 C16 C17 C18 C20 C23 C25"),
    "long": dict(props="C01 C02 C03 C04 C05 C06 C09 C11 C12 C13 C14 C15 C16 C17 C18 C20 C22 C24 C25"),
    "heap": dict(props="C24"),
    "job": dict(props="C26"),
    "multi": dict(props="C01 C03 C04 C06 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C20 C21 C22 C23 C25"),
    "oom": dict(props="C27"),
}
INST = ["-std=c++17", "-O1", "-g", "-fsanitize=thread", "-DREISER_RT_HAS_PTHREADS"]
PLAIN = ["-std=c++17", "-O2", "-g1", "-DREISER_RT_HAS_PTHREADS"]


def inc():
    return ["-I" + HERE, "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "examples/JobDispatcher/src")]


def die(msg):
    print("check.py: " + msg, flush=True)
    sys.exit(2)


# ---------------------------------------------------------------------------------------------- build
def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\1")
    return h.hexdigest()


def headers():
    r = glob.glob(HERE + "/*.hpp") + glob.glob(HERE + "/*.h") + glob.glob(HERE + "/h/*.hpp")
    for pat in ("*.hpp", "*.h", "*.hh", "*.ipp", "*.inl", "*.tpp"):
        r += glob.glob(os.path.join(REPO, "src", "**", pat), recursive=True) + glob.glob(os.path.join(REPO, "examples/JobDispatcher", "**", pat), recursive=True)
    return r


def build(names):
    """returns {name: path of binary}"""
    os.makedirs(BUILD + "/obj", exist_ok=True)
    hh = tree_hash(headers())
    jobs, errors, lock = {}, [], threading.Lock()

    def obj(src, flags, tag=""):
        k = hashlib.sha256((hh + tree_hash([src]) + " ".join(flags) + tag).encode()).hexdigest()[:24]
        o = f"{BUILD}/obj/{os.path.basename(src)}.{k}.o"
        if o not in jobs:
            jobs[o] = ["clang++"] + flags + ["-c", src, "-o"]
        return o

    rt = obj(HERE + "/rt.cpp", PLAIN + inc())
    libsrc = sorted(glob.glob(os.path.join(REPO, "src", "*.cpp")))
    lib = [obj(s, INST + inc()) for s in libsrc]
    links = {}
    for n in names:
        os_ = [rt, obj(f"{HERE}/h/{n}.cpp", INST + inc())]
        if HARNESS[n].get("far"):
            os_.append(obj(f"{HERE}/h/{n}_far.cpp", PLAIN + inc()))
        if n == "job":
            os_ += [obj(s, INST + inc()) for s in sorted(glob.glob(os.path.join(REPO, "examples/JobDispatcher/src", "*.cpp"))) if os.path.basename(s) != "JobData.cpp" and not has_main(s)]   # job.cpp replaces JobData.cpp
        links[n] = os_ + lib
    todo = queue.Queue()
    # the slowest first
    for o, c in sorted(jobs.items(), key=lambda x: -os.path.getsize(x[1][-2])):
        if os.path.exists(o):
            os.utime(o)
        else:
            todo.put((o, c))

    def work():
        while True:
            try:
                o, c = todo.get_nowait()
            except queue.Empty:
                return
            tmp = f"{o}.{os.getpid()}"
            p = subprocess.run(c + [tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                with lock:
                    errors.append(" ".join(c) + "\n" + p.stdout[-4000:])
            else:
                os.replace(tmp, o)

    ts = [threading.Thread(target=work) for _ in range(JOBS)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errors:
        die("does not compile:\n" + errors[0])
    out = {}
    for n, os_ in links.items():
        k = hashlib.sha256(" ".join(os_).encode()).hexdigest()[:24]
        b = f"{BUILD}/{n}.{k}"
        if not os.path.exists(b):
            p = subprocess.run(["clang++", "-no-pie", "-g"] + os_ + ["-o", b + f".{os.getpid()}", "-ldl", "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                die("does not link:\n" + p.stdout[-4000:])
            os.replace(b + f".{os.getpid()}", b)
        else:
            os.utime(b)
        out[n] = b
    prune()
    return out


def has_main(src):
    with open(src) as f:
        return re.search(r"\bint\s+main\s*\(", f.read()) is not None


def prune(keep=400e6):
    fs = [f for f in glob.glob(BUILD + "/obj/*") + glob.glob(BUILD + "/*") if os.path.isfile(f)]
    try:
        st = sorted(((os.path.getmtime(f), os.path.getsize(f), f) for f in fs), reverse=True)
        tot = 0
        for m, s, f in st:
            tot += s
            if tot > keep and time.time() - m > 3600:
                os.remove(f)
    except OSError:
        pass


# ---------------------------------------------------------------------------------------------- symbols
class Symbols:
    def __init__(self, binary):
        self.b, self.c = binary, {}

    def load(self, lines):
        pcs = sorted({m for l in lines for m in re.findall(r"\{pc:(0x[0-9a-f]+)\}", l)} - set(self.c))
        if not pcs:
            return
        try:
            p = subprocess.run(["addr2line", "-C", "-f", "-s", "-e", self.b] + [hex(int(x, 16) - 1) for x in pcs], capture_output=True, text=True, timeout=120)
            ls = p.stdout.split("\n")
            for i, pc in enumerate(pcs):
                fn, loc = ls[2 * i], ls[2 * i + 1]
                fn = re.sub(r"\(.*", "", fn)
                self.c[pc] = f"{fn[-60:]} {loc.split(' ')[0]}"
        except Exception:
            pass

    def sub(self, lines):
        self.load(lines)
        return [re.sub(r"\{pc:(0x[0-9a-f]+)\}", lambda m: "{" + self.c.get(m.group(1), m.group(1)) + "}", l) for l in lines]


# ---------------------------------------------------------------------------------------------- running
class Runner:
    def __init__(self, prop, deadline):
        self.prop, self.deadline = prop, deadline
        self.q, self.res, self.err, self.lock, self.stop, self.skipped = [], [], [], threading.Lock(), False, 0
        self.found = []

    def env(self):
        e = dict(os.environ, MC_PROP=self.prop)
        e.pop("MC_LIMIT", None)
        return e

    def run(self, scns, limit_fn, known):
        self.q, self.total = list(scns), len(scns)
        procs = []

        def worker():
            p, pb = None, None
            while not self.stop:
                with self.lock:
                    left = len(self.q)
                    if not left:
                        break
                    now = time.time()
                    if now > self.deadline:
                        self.skipped += left
                        self.q.clear()
                        break
                    # keep to the binary of the process at hand when possible
                    binary, name = self.q.pop(0)
                    lim = limit_fn(self.deadline - now, left)
                if p is None or pb != binary:
                    if p:
                        p.stdin.close()
                        p.wait()
                    p, pb = subprocess.Popen([binary, "--worker"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=self.env()), binary
                    procs.append(p)
                try:
                    p.stdin.write(f"{name}\t{lim:.1f}\n")
                    p.stdin.flush()
                    line = p.stdout.readline()
                except (BrokenPipeError, OSError):
                    line = ""
                try:
                    d = json.loads(line)
                    d["binary"], d["prop"] = binary, self.prop
                    with self.lock:
                        self.res.append(d)
                        if d["violated"] and not known(d):
                            self.found.append(d)
                            self.stop = True
                except ValueError:
                    try:
                        p.kill()
                    except OSError:
                        pass
                    if not self.stop:
                        with self.lock:
                            self.err.append((name, (line + p.stderr.read())[-600:]))
                    p.wait()
                    p = None
            if p and not self.stop:
                p.stdin.close()
                p.wait()

        ts = [threading.Thread(target=worker, daemon=True) for _ in range(JOBS)]
        [t.start() for t in ts]
        while any(t.is_alive() for t in ts):
            time.sleep(0.05)
            if self.stop:
                time.sleep(0.3)
                break
        for p in procs:
            if p.poll() is None:
                p.kill()
        return self


def known_findings():
    """known-findings.txt: 'finding: property=ID scenario=GLOB message=REGEX | text' ; 'fixed:' lines suppress nothing"""
    r = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) scenario=(\S+) message=/(.*?)/ \| (.*)", l.strip())
            if m:
                r.append(m.groups())
    return r


def safe(s):
    return re.sub(r"[^A-Za-z0-9_.-]+", "_", s)


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == "--setup":
        build([n for n in HARNESS if os.path.exists(f"{HERE}/h/{n}.cpp")])
        print("setup done in %.1f s" % (time.time() - T0))
        return 0
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))
        b = build([d["harness"]])[d["harness"]]
        p = subprocess.run([b, "--replay", d["scenario"], str(d["preempt"]), d["choices"] or "-"], capture_output=True, text=True, env=dict(os.environ, MC_PROP=d["property"]))
        print("\n".join(Symbols(b).sub((p.stdout + p.stderr).split("\n"))))
        return p.returncode
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    thorough = tier == "thorough"
    names = [n for n in HARNESS if prop in HARNESS[n]["props"].split() and os.path.exists(f"{HERE}/h/{n}.cpp")]
    if not names:
        die("no scenarios for " + prop)
    bins = build(names)
    built = time.time() - T0
    scns = []
    for n, b in bins.items():
        out = subprocess.run([b, "--list"], capture_output=True, text=True, timeout=60)
        if out.returncode:
            die(f"{n} --list failed: " + (out.stdout + out.stderr)[-500:])
        for l in out.stdout.splitlines():
            ps, t, name = l.split("\t")
            if prop in ps.split(",") and (thorough or t == "0"):
                scns.append((int(t), n, b, name))
    scns.sort(key=lambda x: x[0])   # stable
    budget = float(os.environ.get("MC_BUDGET", "0")) or (600 if thorough else 420)
    deadline = T0 + budget
    kn = [k for k in known_findings() if k[0] == prop]
    hits = {}

    def known(d):
        for k in kn:
            if fnmatch.fnmatch(d["name"], k[1]) and re.search(k[2], d["msg"]):
                hits[k] = hits.get(k, 0) + 1
                return True
        return False

    if thorough:
        limit = lambda remain, left: max(1.0, min(90.0, remain * 0.5, remain * JOBS / (left * 2.5)))
    else:
        limit = lambda remain, left: max(5.0, min(100.0, remain * 0.3))
    run = Runner(prop, deadline).run([(b, n) for _, _, b, n in scns], limit, known)
    # a scenario that ended the process gets a second chance of its own: an error that persists is an error of the check
    errs = run.err
    if errs and not run.found:
        again = Runner(prop, deadline).run([(b, n) for _, _, b, n in scns if n in {e[0] for e in errs}], limit, known)
        errs = again.err
        run.res += again.res
        run.found += again.found
    tierof = {n: t for t, _, _, n in scns}
    R = run.res
    S = lambda k: sum(d[k] for d in R)
    capped = [d for d in R if d["capped"]]
    reason = {n for _, n, _, _ in scns}
    samples = []
    if R and not run.found:
        # written out: one complete execution of a few scenarios (the last one enumerated)
        pick = sorted((d for d in R if d.get("last")), key=lambda d: (-d["states"], d["name"]))[:1] + sorted((d for d in R if d.get("last")), key=lambda d: d["name"])[:2]
        for d in pick:
            try:
                p = subprocess.run([d["binary"], "--replay", d["name"], str(d["opt_preempt"]), d["last"]], capture_output=True, text=True, timeout=30, env=run.env())
                lines = p.stdout.split("\n")
                samples.append({"scenario": d["name"], "choices": d["last"][:600], "trace": Symbols(d["binary"]).sub(lines[:40] + (["..."] if len(lines) > 50 else []) + lines[-10:])})
            except Exception as e:
                samples.append({"scenario": d["name"], "error": str(e)})
    ev = {
        "property": prop, "tier": "thorough" if thorough else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "coverage": {
            "states": S("states"), "transitions": S("trans"), "traces_validated_against_impl": S("complete"),
            "executions_started": S("execs"), "executions_merged_into_known_states": S("pruned"),
            "monitored_memory_accesses": S("accesses"), "context_switches": S("switches"), "deepest_choice_sequence": max([d["depth"] for d in R] or [0]),
            "distinct_observable_outcomes": S("outcomes"),
            "scenarios": len(R), "scenarios_exhausted": len(R) - len(capped), "scenarios_not_started": run.skipped,
            "incomplete": [{"scenario": d["name"], "complete_below_preemption_bound": d["bound"]} for d in capped][:200],
            "exhaustive": not capped and not run.skipped and not errs and not run.found,
            "bounds": "every schedule and data choice of each listed scenario (closed program of 1-5 threads); scenarios named in 'incomplete' only up to the preemption bound given there",
            "explanation": "each trace is an execution of the code compiled from /repo's working tree under the controlled scheduler; there is no separate model, so every explored trace is one of the implementation. states = distinct states reached at scheduling points (state mode) or distinct happens-before prefixes (hb mode) or distinct final states (one-schedule and fixed-priority scenarios)",
            "scenario_list": [{"name": d["name"], "mode": d["mode"], "states": d["states"], "executions": d["execs"], "outcomes": d["outcomes"], "secs": d["secs"]} for d in sorted(R, key=lambda d: d["name"])][:400],
            "samples": samples or [{"scenario": d["name"], "msg": d.get("msg", "")} for d in R[:3]],
        },
        "assumptions": ["sequentially consistent interleavings; C23 shows the absence of data races that makes this complete for the non-relaxed atomics used",
                        "virtual time: time advances only when nothing else can run", "clang 18 -O1 code generation, glibc/libstdc++ of this sandbox"],
        "wall_s": round(time.time() - T0, 2), "violations": len(run.found),
    }
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open(f"{VERIF}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
    for k, n in hits.items():
        print(f"KNOWN-FINDING: property={prop} {k[3]} ({n} scenario(s))")
    rc = 0
    real = [d for d in run.found if d["repro"]]
    for d in real[:1]:
        os.makedirs(VERIF + "/replays", exist_ok=True)
        path = f"{VERIF}/replays/{prop}-{safe(d['name'])}.json"
        tr = Symbols(d["binary"]).sub(d["trace"])
        with open(path, "w") as f:
            json.dump({"property": prop, "harness": os.path.basename(d["binary"]).split(".")[0], "scenario": d["name"], "kind": d["kind"], "message": d["msg"], "preempt": d["preempt"], "choices": d["choices"], "how": "python3 /verif/mc/check.py --replay " + path, "trace": tr}, f, indent=1)
        print(f"{prop}: {d['kind']}: {Symbols(d['binary']).sub([d['msg']])[0]}\n  in scenario {d['name']}; last steps:")
        for l in tr[-25:]:
            print("    " + l[:200])
        print(f"VIOLATION property={prop} replay={path}", flush=True)
        rc = 1
    if not real and run.found:
        print(f"{prop}: a violation could not be reproduced (error of the check): {run.found[0]['name']}: {run.found[0]['msg']} / {run.found[0]['rmsg']}")
        rc = 2
    if not real and errs:
        print(f"{prop}: {len(errs)} scenario(s) ended with an error of the check: {errs[0][0]}: {errs[0][1]}")
        rc = 2
    c = ev["coverage"]
    print(f"{prop} {ev['tier']}: {c['scenarios']} scenarios ({len(capped)} incomplete, {run.skipped} not started), {c['states']} states, {c['transitions']} transitions, {c['traces_validated_against_impl']} complete executions, build {built:.1f} s, total {time.time() - T0:.1f} s, exit {rc}", flush=True)
    return rc


if __name__ == "__main__":
    sys.exit(main())
