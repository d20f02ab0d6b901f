#!/usr/bin/env python3
"""Decide one property of rphtml with the TLA+ specification in spec/.

  check.py setup                     build the harness
  check.py <property> quick          the check for every change
  check.py <property> thorough       the deep exploration
  check.py <property> replay FILE    run the case of a replay file again

Steps of a check:
 1. build the harness (harness/) against the working tree of /repo;
 2. TLC explores the specification (spec/MC*.tla) and emits its behaviours;
 3. the harness runs these behaviours and generated ones in the real code and records what it does;
 4. TLC checks every record against the specification (spec/Trace.tla).
Exit 0: held.  Exit 1 and a VIOLATION line: broken.  Exit 2: the check itself failed.
"""
import json, os, re, resource, shutil, subprocess, sys, threading, time, zlib

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
WORK = os.path.join(HERE, "work")
TARGET = os.path.join(WORK, "target")
HARNESS = os.path.join(TARGET, "debug", "rpharness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PROPS = ["C%02d" % i for i in range(1, 31)]
SHARDS = 8


class ToolError(Exception):
    pass


# --------------------------------------------------------------------------- plans
# (module, mode, depth, wide, workers): all behaviours that a run emits are run in the real code.  Then: how many of each run are
# recorded in full for the trace check (and so those whose digest differs), the number of random sources, and of long ones
def plan(prop, tier):
    if prop in ("C27", "C28", "C29", "C30"):
        q = tier == "quick"
        runs = {"C27": [("MCBuild", "build", 3, 1, 4)] if q else [("MCBuild", "build", 3, 1, 8), ("MCBuild", "build", 4, 0, 8)],
                "C28": [("MCWorld", "world", 2, 1, 4), ("MCWorld", "world", 3, 0, 4)] if q else [("MCWorld", "world", 3, 1, 8), ("MCWorld", "world", 4, 0, 8)],
                "C29": [("MCLife", "life", 3, 1, 4), ("MCLife", "life", 4, 0, 4)] if q else [("MCLife", "life", 4, 1, 8), ("MCLife", "life", 5, 0, 8)],
                "C30": [("MCCompose", "compose", 2, 0, 8)] if q else [("MCCompose", "compose", 2, 1, 8)]}[prop]
        if prop == "C30":
            return runs, 80000 if q else 500000, 20000 if q else 150000, 0
        return runs, 25000 if q else 200000, 6000 if q else 60000, 0
    render = prop in ("C03", "C13", "C15", "C16", "C17", "C18", "C19")
    if tier == "quick":
        if prop == "C20":
            return [("MCHist", "hist", 1, 1, 4), ("MCHist", "hist", 2, 0, 4)], 20000, 6000, 14
        if prop == "C25":
            return [("MC", "full", 3, 0, 4)], 8000, 4000, 0
        runs = [("MC", "full", 4, 0, 4)]
        if prop != "C22":
            runs += [("MC", "abs", 4, 0, 4), ("MC", "chars", 2, 0, 3)]
        runs += [("MC", "pairs", 1, 0, 2), ("MC", "runs", 1, 0, 2)]
        if prop not in ("C02",):
            runs.append(("MC", "full", 2, 1, 2))
        return runs, 2500 if render else 4000, 10000 if render else 20000, 28
    if prop == "C20":
        return [("MCHist", "hist", 2, 1, 8)], 150000, 60000, 60
    if prop == "C25":
        return [("MC", "full", 4, 0, 8)], 120000, 40000, 0
    runs = [("MC", "full", 5, 0, 8), ("MC", "abs", 5, 0, 8), ("MC", "full", 3, 1, 8), ("MC", "chars", 3, 0, 8), ("MC", "pairs", 1, 1, 8), ("MC", "runs", 2, 0, 8)]
    return runs, 10000, 100000, 140


# --------------------------------------------------------------------------- running tools
def java(xmx, dir, gc="-XX:+UseParallelGC"):
    # TLC unpacks its standard modules in java.io.tmpdir
    return ["java", "-Xss256m", "-Xmx" + xmx, gc, "-Djava.io.tmpdir=" + dir, "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE"]


def build():
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET, CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
    env.setdefault("HOME", "/root")
    p = subprocess.run(["cargo", "build", "--offline"], cwd=os.path.join(HERE, "harness"), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("the harness does not build:\n" + p.stdout[-6000:])


class Explore(threading.Thread):
    """one TLC run over the specification; the behaviours it emits stay in the file `out`"""

    def __init__(self, prop, run, dir, seed, limit, sample):
        super().__init__(daemon=True)
        self.prop, self.run_, self.dir, self.seed, self.limit, self.sample = prop, run, dir, seed, limit, sample
        self.cases, self.handlers, self.emitted, self.differ = [], {}, 0, 0
        self.generated = self.distinct = self.depth = 0
        self.ok, self.error = False, None
        self.out = os.path.join(dir, "model-%s-%s-%d-%d.txt" % run[:4])

    def run(self):
        try:
            self.go()
        except Exception as e:  # reported by the main thread
            self.error = e

    def go(self):
        module, mode, depth, wide, workers = self.run_
        env = dict(os.environ, PROP=self.prop, MODE=mode, DEPTH=str(depth), WIDE=str(wide))
        meta = os.path.join(self.dir, "meta-%s-%s-%d-%d" % (module, mode, depth, wide))
        cmd = java("4g" if self.limit <= 600 else "8g", self.dir) + ["-workers", str(workers), "-metadir", meta, "-config", os.path.join(SPEC, module + ".cfg"),
                                      os.path.join(SPEC, module + ".tla")]
        with open(self.out, "wb") as f:
            p = subprocess.Popen(cmd, cwd=self.dir, env=env, stdout=f, stderr=subprocess.STDOUT)
            timer = threading.Timer(self.limit, p.kill)
            timer.start()
            p.wait()
            timer.cancel()
        shutil.rmtree(meta, ignore_errors=True)
        log = subprocess.run(["grep", "-av", '^"[BHG] ', self.out], stdout=subprocess.PIPE).stdout.decode("utf-8", "replace")
        m = re.search(r"^(\d+) states generated, (\d+) distinct states found, (\d+) states left", log, re.M)
        if m:
            self.generated, self.distinct = int(m[1]), int(m[2])
        m = re.search(r"^The depth of the complete state graph search is (\d+)", log, re.M)
        if m:
            self.depth = int(m[1])
        if "No error has been found" not in log:
            raise ToolError("the specification does not satisfy its design properties, or TLC failed or ran out of time (%s):\n%s"
                            % (" ".join(map(str, self.run_)), log[-5000:]))
        if module != "MC":   # histories: the shortest ones, and of the others those with the smallest hash
            lines = [l.rstrip() for l in open(self.out, "rb") if l.startswith((b'"H ', b'"G '))]
            self.emitted = len(lines)
            salt = zlib.crc32(b"%d" % self.seed)
            rest = sorted(lines[self.sample // 2:], key=lambda l: zlib.crc32(l, salt))
            self.cases = [case_line(x.decode()) for x in lines[:self.sample // 2] + rest[:self.sample - self.sample // 2]]


def case_line(text):
    """an emitted history as a line of the cases file"""
    text = text.replace('\\"', '"')
    if text.startswith('"G '):
        ops = re.findall(r'<<"(\w+)", (\d+), (\d+), <<([^<>]*)>>>>', text)
        return "G 0  " + "".join("%s,%s,%s,%s;" % (a, b, c, d.replace(" ", "").replace(",", ".")) for a, b, c, d in ops)
    m = re.match(r'"H (\d+) <<([^<>]*)>> <<(.*)>>"$', text)
    ops = re.findall(r'<<(\d+), "(\w+)", (\d+), (\d+), <<([^<>]*)>>>>', m[3])
    return "H 0 %s %s %s" % (m[2].replace(" ", ""), m[1],
                             ";".join("%s,%s,%s,%s,%s" % (a, b, c, d, e.replace(" ", "").replace(",", ".")) for a, b, c, d, e in ops))


def run_harness(prop, cases, dir, seed, n, long_n, limit, sample=0, models=(), extra=None):
    scratch = os.path.join(dir, "scratch")
    os.makedirs(scratch, exist_ok=True)
    cmd = [HARNESS, prop, cases, dir, str(SHARDS), str(seed), str(n), str(long_n), scratch, str(sample)] + list(models)
    env = dict(os.environ, **(extra or {}))
    try:
        return subprocess.run(cmd, cwd=dir, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit)
    except subprocess.TimeoutExpired:
        raise ToolError("the harness ran out of time")


def check_traces(prop, dir, limit):
    """TLC over the recorded traces; returns (bad records, number examined, number the property says nothing about)"""
    procs = []
    for i in range(SHARDS):
        path = os.path.join(dir, "t%d.ndjson" % i)
        if not os.path.exists(path) or os.path.getsize(path) == 0:
            continue
        env = dict(os.environ, PROP=prop, TRACE=path)
        out = open(os.path.join(dir, "o%d.txt" % i), "wb")
        cmd = java("3g", dir, "-XX:+UseSerialGC") + ["-workers", "1", "-metadir",
               os.path.join(dir, "metat%d" % i), "-config", os.path.join(SPEC, "Trace.cfg"), os.path.join(SPEC, "Trace.tla")]
        procs.append((i, subprocess.Popen(cmd, cwd=dir, env=env, stdout=out, stderr=subprocess.STDOUT)))
    end = time.time() + limit
    for _, p in procs:
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            for _, q in procs:
                q.kill()
            raise ToolError("the trace check ran out of time")
    bad, examined, skipped = [], 0, 0
    for i, _ in procs:
        text = open(os.path.join(dir, "o%d.txt" % i), errors="replace").read()
        flat = re.sub(r"\s*\n\s+", " ", text)
        bad += [(int(m[1]), m[2]) for m in re.finditer(r'<<\s*"BAD", (\d+), "([^"]*)"\s*>>', flat)]
        m = re.search(r'"SKIPPED", (\d+)', flat)
        with open(os.path.join(dir, "t%d.ndjson" % i), "rb") as f:
            lines = [int(re.match(rb'\{"id":(\d+),', l)[1]) for l in f]
        at = re.findall(r"^(?:/\\ )?l = (\d+)$", text, re.M)
        if "The error occurred when TLC was evaluating" in text and at and int(at[-1]) <= len(lines):
            # a tree the specification has no meaning for (a text node without text, an element without a name)
            bad.append((lines[int(at[-1]) - 1], "not a tree of the specification"))
            examined += int(at[-1])
            continue
        if "No error has been found" not in text or not m:
            raise ToolError("the trace check failed:\n" + text[-5000:])
        skipped += int(m[1])
        examined += len(lines)
    return sorted(bad), examined, skipped


def records(dir, ids):
    want, out = set(ids), {}
    for i in range(SHARDS):
        path = os.path.join(dir, "t%d.ndjson" % i)
        if os.path.exists(path):
            with open(path) as f:
                for line in f:
                    m = re.match(r'\{"id":(\d+),', line)
                    if m and int(m[1]) in want:
                        out[int(m[1])] = json.loads(line)
    return out


def show(case):
    f = case.split(" ")
    if len(f) < 3:
        return case
    if f[0] in "Gg":
        calls = [c.split(",") for c in f[3].split(";") if c]
        return "; ".join("%s %s %s %s" % (c[0], c[1], c[2], json.dumps("".join(chr(int(x)) for x in c[3].split(".") if x))) for c in calls)
    src = "".join(chr(int(x)) for x in f[2].split(",") if x)
    if f[0] == "P":
        text = lambda t: json.dumps("".join(chr(int(x)) for x in t.split(",") if x))
        return "options=%s source=%s, %s times %s, %s" % (f[1], json.dumps(src), f[5], text(f[3]), text(f[4]))
    return "options=%s source=%s%s" % (f[1], json.dumps(src), "" if len(f) < 4 else " history: clone node %s; %s" % (f[3], " ".join(f[4:])))


# --------------------------------------------------------------------------- known findings
def known_findings(prop):
    """lines `finding: property=<id> case=<case line> <what fails>`; only these exact cases are known"""
    out = {}
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) case=\[(.*?)\] (.*)", line.strip())
            if m and m[1] == prop:
                out[m[2]] = m[3]
    return out


# --------------------------------------------------------------------------- a check
def violation(prop, tier, seed, kind, reason, case, record):
    d = os.path.join(WORK, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%d.json" % (prop, tier, seed))
    with open(path, "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "kind": kind, "reason": reason, "case": case,
                   "shown": show(case), "record": record, "command": "python3 check.py %s replay %s" % (prop, path)}, f, indent=1)
    print("%s: %s: %s" % (prop, reason, show(case)[:600]))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return path


def check(prop, tier, seed):
    start = time.time()
    os.makedirs(WORK, exist_ok=True)
    dir = os.path.join(WORK, "run-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(dir, ignore_errors=True)
    os.makedirs(dir)
    try:
        return check_in(dir, prop, tier, seed, start)
    finally:
        shutil.rmtree(dir, ignore_errors=True)


def check_in(dir, prop, tier, seed, start):
    runs, sample, random_n, long_n = plan(prop, tier)
    limit = 600 if tier == "quick" else 3000
    explores = [Explore(prop, r, dir, seed, limit, sample) for r in runs]
    if tier == "quick":
        for e in explores:
            e.start()
        build()
        for e in explores:
            e.join()
    else:
        build()
        for e in explores:   # one after the other, each with all cores
            e.start()
            e.join()
    for e in explores:
        if e.error:
            raise e.error
    t_model = time.time() - start
    cases = os.path.join(dir, "cases.txt")
    with open(cases, "w") as f:
        for e in explores:
            for c in e.cases:
                f.write(c + "\n")
    violations, samples, examined, skipped, known_hit = 0, [], 0, 0, 0
    models = [e.out for e in explores if e.run_[0] == "MC"]
    p = run_harness(prop, cases, dir, seed, random_n, long_n, limit, sample, models)
    t_impl = time.time() - start
    if p.returncode != 0:
        hang = os.path.join(dir, "hang")
        if p.returncode == 7 and os.path.exists(hang):
            violation(prop, tier, seed, "hang", "no result within 30 s", open(hang).read(), None)
        elif p.returncode == 8 and os.path.exists(hang):
            violation(prop, tier, seed, "panic", "the tree or the document cannot be examined (panic in a public operation)", open(hang).read(), None)
        elif p.returncode < 0 or p.returncode in (134, 139):
            q = run_harness(prop, cases, dir, seed, random_n, long_n, limit, sample, models, {"RPH_TRACE": "1"})
            last = [l for l in q.stderr.decode("utf-8", "replace").split("\n") if l.startswith("CASE ")]
            if q.returncode == 0 or not last:
                raise ToolError("the harness ended with %d once" % p.returncode)
            violation(prop, tier, seed, "abort", "the process is killed (signal or abort, status %d)" % q.returncode, last[-1][5:], None)
        else:
            raise ToolError("the harness failed (%d):\n%s" % (p.returncode, p.stderr.decode("utf-8", "replace")[-3000:]))
        violations = 1
    else:
        for e in explores:
            for m in re.finditer(r"^model (\S+) (\d+) (\d+)$", p.stdout.decode(), re.M):
                if m[1] == e.out:
                    e.emitted, e.differ = int(m[2]), int(m[3])
            for m in re.finditer(r"^tag (\S+) (\S+) (\d+)$", p.stdout.decode(), re.M):
                if m[1] == e.out:
                    e.handlers[m[2]] = int(m[3])
            if os.path.exists(e.out):
                os.remove(e.out)
        bad, examined, skipped = check_traces(prop, dir, limit)
        known = known_findings(prop)
        recs = records(dir, [i for i, _ in bad[:200]] + list(range(0, examined, max(1, examined // 5)))[:5])
        fresh = [(i, why) for i, why in bad if recs.get(i, {}).get("case") not in known]
        known_hit = len(bad) - len(fresh)
        for case in sorted({recs[i]["case"] for i, _ in bad if i in recs and recs[i]["case"] in known}):
            print("KNOWN-FINDING: property=%s %s" % (prop, known[case]))
        violations = len(fresh)
        if fresh:
            # the shortest source is the clearest
            i, why = min(fresh[:200], key=lambda x: len(recs[x[0]].get("case", "")) if x[0] in recs else 1 << 30)
            violation(prop, tier, seed, "record", why, recs[i]["case"], recs[i])
        for i in sorted(recs):
            if i not in dict(bad) and len(samples) < 4:
                r = recs[i]
                samples.append({"case": show(r["case"])[:300] if r["case"] else str(r)[:300], "result": str(r.get("res", r["kind"]))})
    deep_runs = []
    if prop == "C01" and not violations:
        known = known_findings(prop)
        for step in ("drop", "render", "clone"):
            for n in (2000, 1000000):
                case = "deep %s %d" % (step, n)
                q = subprocess.run([HARNESS] + case.split(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300,
                                   preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CORE, (0, 0)))
                deep_runs.append({"case": case, "status": q.returncode})
                if q.returncode == 0:
                    continue
                if case in known:
                    known_hit += 1
                    print("KNOWN-FINDING: property=%s %s" % (prop, known[case]))
                else:
                    violations += 1
                    violation(prop, tier, seed, "deep", "%d nested elements, %s: status %d" % (n, step, q.returncode), case, None)
                    break
    coverage = {
        "states": sum(e.distinct for e in explores),
        "transitions": sum(e.generated for e in explores),
        "traces_validated_against_impl": examined - skipped,
        "traces_the_property_says_nothing_about": skipped,
        "behaviours_emitted_by_the_specification": sum(e.emitted for e in explores),
        "behaviours_replayed_in_the_code": sum(len(e.cases) or e.emitted for e in explores),
        "behaviours_with_an_unexpected_digest": sum(e.differ for e in explores),
        "explorations": [{"module": e.run_[0], "mode": e.run_[1], "tokens": e.run_[2], "all_option_sets": bool(e.run_[3]),
                          "states": e.distinct, "transitions": e.generated, "depth": e.depth,
                          "behaviours_per_handler": dict(sorted(e.handlers.items()))} for e in explores],
        "random_sources": random_n, "long_sources": long_n,
        "known_findings_seen": known_hit, "deep": deep_runs,
        "seconds": {"exploration_and_build": round(t_model, 1), "implementation": round(t_impl - t_model, 1),
                    "trace_check": round(time.time() - start - t_impl, 1)},
        "samples": samples or ["none: the run ended with a violation"],
    }
    evidence = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": coverage,
                "assumptions": ["the htmlentity crate (its table is recorded, not specified)", "TLC and the CommunityModules JSON reader",
                                "the harness records what the public API returns"],
                "wall_s": round(time.time() - start, 2), "violations": violations}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    if violations:
        return 1
    print("%s %s: held; %d states, %d traces of the code checked, %.0f s" % (prop, tier, coverage["states"], examined, time.time() - start))
    return 0


def replay(prop, path):
    d = json.load(open(path))
    build()
    if d["kind"] == "deep":
        q = subprocess.run([HARNESS] + d["case"].split())
        if q.returncode:
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1 if q.returncode else 0
    dir = os.path.join(WORK, "run-replay-%d" % os.getpid())
    shutil.rmtree(dir, ignore_errors=True)
    os.makedirs(dir)
    try:
        cases = os.path.join(dir, "cases.txt")
        with open(cases, "w") as f:
            f.write(d["case"] + "\n" if prop != "C25" else "")
        p = run_harness(prop, cases, dir, d["seed"], 0, 0, 120)
        if p.returncode != 0:
            print("%s: harness status %d: %s" % (prop, p.returncode, d["shown"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        bad, examined, _ = check_traces(prop, dir, 300)
        for i, why in bad:
            print("%s: %s: %s" % (prop, why, d["shown"]))
            print(json.dumps(records(dir, [i])[i])[:4000])
        if bad:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        print("%s: held on the %d records of this case" % (prop, examined))
        return 0
    finally:
        shutil.rmtree(dir, ignore_errors=True)


def main():
    a = sys.argv[1:]
    try:
        if a == ["setup"]:
            os.makedirs(WORK, exist_ok=True)
            build()
            return 0
        if len(a) < 2 or a[0] not in PROPS:
            print(__doc__)
            return 2
        if a[1] == "replay":
            return replay(a[0], a[2])
        return check(a[0], a[1], int(os.environ.get("VERIF_SEED", "1") or "1"))
    except ToolError as e:
        print("ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
