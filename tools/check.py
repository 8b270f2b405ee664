#!/usr/bin/env python3
"""Decide one property: check.py PROPERTY   (VERIF_SEED, VERIF_TIER from the environment)

 1. model-check the specification of the property exhaustively within its bounds (spec/*/MC*.tla);
 2. let the specification export behaviours to replay, where it has a generator (spec/*/Gen*.tla);
 3. build the drivers against /repo's working tree and run the real code, recording every call;
 4. let TLC judge the recorded trace against the specification (spec/*/Tr*.tla).

Exit 0: held.  Exit 1: VIOLATION line.  Exit 2: the check itself failed.
"""
import concurrent.futures, hashlib, json, os, re, resource, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS  # noqa: E402

BUILD, OUT = os.path.join(V, "build"), os.path.join(V, "out")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPECDIRS = sorted(os.path.join(V, "spec", d) for d in os.listdir(os.path.join(V, "spec")))


class ToolError(Exception):
    pass


def run(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    except subprocess.TimeoutExpired:
        raise ToolError("timed out: " + " ".join(cmd[:6]))


def java_overrides():
    srcs = sorted(os.path.join(V, "tools", "java", f) for f in os.listdir(os.path.join(V, "tools", "java")))
    h = hashlib.sha256(b"".join(open(s, "rb").read() for s in srcs)).hexdigest()
    cls, stamp = os.path.join(BUILD, "classes"), os.path.join(BUILD, "classes.sha")
    if os.path.exists(stamp) and open(stamp).read() == h:
        return
    os.makedirs(cls, exist_ok=True)
    r = run(["javac", "-cp", JARS.split(":")[0], "-d", cls] + srcs, 120)
    if r.returncode:
        raise ToolError("javac: " + r.stdout)
    open(stamp, "w").write(h)


def cargo(variant, release=False):
    """Build the drivers against /repo. variant: 'full' (std, plot) or 'alloc' (the default, no_std configuration)."""
    profile = "release" if release else "debug"
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "cargo-%s-%s" % (variant, profile)), CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    cmd = ["cargo", "build", "--offline", "-q", "--manifest-path", os.path.join(V, "harness", "Cargo.toml")]
    if variant == "alloc":
        cmd.append("--no-default-features")
    if release:
        cmd.append("--release")
    r = run(cmd, 800, env=env, cwd=V)
    if r.returncode:
        raise ToolError("cargo build failed (%s):\n%s" % (variant, r.stdout[-4000:]))
    return os.path.join(env["CARGO_TARGET_DIR"], profile, "sci-rs-conformance")


def tlc(spec, work, workers=8, env=None, timeout=840, cfg=None):
    d, mod = spec.split("/")
    meta = os.path.join(work, "tlc-" + mod + ("-" + cfg if cfg else ""))
    shutil.rmtree(meta, ignore_errors=True)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss256m", "-Xmx8g", "-Djava.io.tmpdir=" + work, "-DTLA-Library=" + os.pathsep.join(SPECDIRS),
           "-cp", os.path.join(BUILD, "classes") + ":" + JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-config", (cfg or mod) + ".cfg", "-noGenerateSpecTE", mod + ".tla"]
    r = run(cmd, timeout, cwd=os.path.join(V, "spec", d), env=dict(os.environ, **(env or {})))
    shutil.rmtree(meta, ignore_errors=True)
    out = "\n".join(l for l in r.stdout.splitlines() if "operator override" not in l and not l.startswith(("Parsing file", "Semantic proc", "Linting")))
    m = (list(re.finditer(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)) or [None])[-1]
    return dict(out=out, rc=r.returncode, generated=int(m.group(1)) if m else 0, distinct=int(m.group(2)) if m else 0,
                ok="No error has been found" in out)


def undy(v):
    """Exact numbers of a trace back into readable form."""
    if isinstance(v, list):
        if v == [2]:
            return "NaN/inf"
        if v == [0, 0]:
            return 0.0
        if len(v) >= 3 and all(isinstance(x, int) and not isinstance(x, bool) for x in v) and v[0] in (-1, 1) and -90 < v[1] < 90 and all(0 <= x < 32768 for x in v[2:]) and v[2] and v[-1]:
            m = sum(x << (15 * i) for i, x in enumerate(v[2:]))
            try:
                r = v[0] * (m * 2 ** (15 * v[1]) if v[1] >= 0 else m / 2 ** (-15 * v[1]))
            except OverflowError:
                return v
            return int(r) if isinstance(r, int) or (r == int(r) and abs(r) < 1e15) else r
        return [undy(x) for x in v]
    if isinstance(v, dict):
        return {k: undy(x) for k, x in v.items()}
    return v


def short(v, n=700):
    s = json.dumps(v)
    return s if len(s) <= n else s[:n] + " ..."


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.environ["VERIF_TIER"], os.environ["VERIF_SEED"] = tier, str(seed)
    p = PROPS[pid]
    t0 = time.time()
    work = os.path.join(OUT, pid + "-" + tier)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work, exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    findings = [f for f in json.load(open(os.path.join(V, "known_findings.json")))["findings"] if f["property"] == pid and f["status"] == "known"]

    java_overrides()
    mc_stats, violations, known = [], [], {}

    def models():
        for spec in p.get("mc", []):
            name, cfg = (spec, None) if isinstance(spec, str) else spec
            if cfg and isinstance(cfg, dict):
                cfg = cfg.get(tier)
                if cfg is None:
                    continue
            s = tlc(name, work, workers=4, cfg=cfg)
            if not s["ok"]:
                raise ToolError("model %s (%s) failed:\n%s" % (name, cfg, s["out"][-3000:]))
            mc_stats.append((name, cfg, s))
        if p.get("gen"):
            cases = os.path.join(work, "cases.ndjson")
            s = tlc(p["gen"], work, workers=1, env={"CASES": cases, "TIER": tier, "SEED": str(seed)})
            if not s["ok"] or not os.path.exists(cases):
                raise ToolError("generator %s failed:\n%s" % (p["gen"], s["out"][-3000:]))
            return cases
        return None

    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        fm = ex.submit(models)
        fb = {v: ex.submit(cargo, v) for v in p.get("variants", ["full"])}
        if p.get("release", True):  # the same calls without overflow checks and debug assertions
            fb.update({v + "-release": ex.submit(cargo, v, True) for v in p.get("variants", ["full"])})
        cases = fm.result()
        bins = {v: f.result() for v, f in fb.items()}
    t_build = time.time() - t0

    # run the real code
    def drive(binary, driver, trace, cases):
        scratch = os.path.join(work, "scratch-" + driver)
        os.makedirs(scratch, exist_ok=True)
        try:
            r = subprocess.run([binary, driver, trace] + ([cases] if cases else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors="replace", timeout=700, preexec_fn=limits, cwd=scratch, env=dict(os.environ, SCRATCH=scratch))
            rc, log = r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            rc, log = -999, "driver did not finish"
        if rc == 0:
            return trace
        cur = open(trace + ".cur", errors="replace").read() if os.path.exists(trace + ".cur") else ""
        if not cur:
            raise ToolError("driver failed: rc=%s\n%s" % (rc, log[-2000:]))
        violations.append(dict(reason="the code under test ended the process (exit %s)" % rc, case=cur, log=log[-2000:]))

    compared = None
    if p.get("histories"):  # every driver's calls in a fresh process, and twice in one that has made many others before
        binary = next(iter(bins.values()))
        own = drive(binary, pid, os.path.join(work, "trace-own.ndjson"), None)
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            long = [ex.submit(drive, binary, "history", os.path.join(work, "trace-history%d.ndjson" % i), ",".join(g)) for i, g in enumerate(p["histories"])]
            fresh = {d: ex.submit(drive, binary, d, os.path.join(work, "trace-%s.ndjson" % d), "/dev/null") for g in p["histories"] for d in g}
        merged = os.path.join(work, "trace-merged.ndjson")
        compared = histories([f.result() for f in long], {d: f.result() for d, f in fresh.items()}, merged)
        traces = [t for t in (own, merged) if t]
    elif p.get("drivers"):  # every driver in both configurations: one event from two recordings of the same call
        runs = {}
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for d in p["drivers"]:
                for v, binary in bins.items():
                    runs[d, v] = ex.submit(drive, binary, d, os.path.join(work, "trace-%s-%s.ndjson" % (d, v)), "/dev/null")
        merged = os.path.join(work, "trace-merged.ndjson")
        compared = merge([(d, [runs[d, v].result() for v in bins]) for d in p["drivers"]], merged)
        traces = [merged]
    else:
        traces = [t for t in (drive(b, pid, os.path.join(work, "trace-%s.ndjson" % v), cases) for v, b in bins.items()) if t]
    t_run = time.time() - t0 - t_build

    profiles = "not compared"
    if len(traces) == 2 and not compared:  # judging the same recording twice would tell nothing new
        if open(traces[0]).read() == open(traces[1]).read():
            traces, profiles = traces[:1], "identical recordings with and without debug assertions and overflow checks"
        else:
            profiles = "recordings with and without debug assertions and overflow checks differ; both judged"

    events, tr_stats = 0, []
    samples, opcount, answers = [], {}, 0
    for trace in traces:
        lines = open(trace).read().splitlines()
        if lines and lines[-1].endswith('"st":"hang","res":[]}'):
            violations.append(dict(reason="the call did not return within 40 s", event=undy(json.loads(lines[-1]))))
            lines = lines[:-1]
            open(trace, "w").write("".join(l + "\n" for l in lines))
        events += len(lines)
        for l in lines:
            m = re.match(r'\{"id":\d+,"op":"([^"]*)"', l)
            k = m.group(1) if m else "?"
            if p.get("histories") and '"seen":["' in l:
                answers += len(json.loads(l)["seen"])
            opcount[k] = opcount.get(k, 0) + 1
            if opcount[k] == 2 and len(samples) < 12:
                samples.append(short(undy(json.loads(l)), 400))
        if not lines:
            raise ToolError("the driver recorded nothing")
        for spec in p["tr"] if isinstance(p["tr"], list) else [p["tr"]]:
            s = tlc(spec, work, env={"TRACE": trace, "TIER": tier})
            if not s["ok"]:
                # an event the specification cannot even evaluate is not one of its steps
                m = re.findall(r"/\\ pos = (\d+)", s["out"])
                if m and 1 <= int(m[-1]) <= len(lines) and "evaluat" in s["out"] and "LoadNd" not in s["out"]:
                    violations.append(dict(reason="outside the specification's types: " + s["out"][-1500:], event=undy(json.loads(lines[int(m[-1]) - 1]))))
                else:
                    raise ToolError("trace validation %s failed:\n%s" % (spec, s["out"][-3000:]))
            elif s["distinct"] < len(lines):
                raise ToolError("trace validation %s judged %d states for %d events" % (spec, s["distinct"], len(lines)))
            tr_stats.append((spec, s))
            for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*(.*?)>>\s*$', s["out"], re.M):
                eid, why = int(m.group(1)), m.group(2).strip()
                line = next(l for l in lines if l.startswith('{"id":%d,' % eid))
                dev = re.search(r'deviation:([A-Za-z0-9_-]+)', why)
                f = next((f for f in findings if dev and f["id"] == dev.group(1)), None)
                if f:
                    known.setdefault(f["id"], [f, 0])[1] += 1
                else:
                    violations.append(dict(reason=why, event=undy(json.loads(line)), spec=spec, raw=line if len(line) < 20000 else line[:20000]))

    cov = dict(
        states=sum(s["distinct"] for _, _, s in mc_stats) + sum(s["distinct"] for _, s in tr_stats),
        transitions=sum(s["generated"] for _, _, s in mc_stats) + sum(s["generated"] for _, s in tr_stats),
        traces_validated_against_impl=events,
        samples=samples or ["none"],
        models=[dict(model=n, cfg=c or n.split("/")[1], generated=s["generated"], distinct=s["distinct"], exhaustive=True) for n, c, s in mc_stats],
        trace_specs=[dict(spec=n, states=s["distinct"]) for n, s in tr_stats],
        events_by_operation=opcount,
        spec_generated_cases=sum(1 for _ in open(cases)) if cases else 0,
        known_findings={k: v[1] for k, v in known.items()},
        profiles=profiles,
        **({"answers_judged": answers} if answers else {}),
        **({"recordings_compared": compared} if compared else {}),
        bounds=p.get("bounds", ""),
        seconds=dict(build_and_model=round(t_build, 1), run=round(t_run, 1)),
    )
    ev = dict(property=pid, tier=tier, seed=seed, level=p.get("level", "model_checking"), coverage=cov,
              assumptions=p.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(violations))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)

    for fid, (f, n) in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s (%d events)" % (pid, f["what"], n))
    if violations:
        rp = os.path.join(OUT, "%s-violation.json" % pid)
        json.dump(dict(property=pid, seed=seed, tier=tier, count=len(violations), violations=violations[:20]), open(rp, "w"), indent=1)
        for v in violations[:5]:
            print("  %s | %s" % (v["reason"][:300].replace("\n", " "), short(v.get("event", v.get("case", "")))))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("%s held (%s): %d model states, %d calls of the code judged, %.0f s" % (pid, tier, cov["states"], events, time.time() - t0))
    shutil.rmtree(work, ignore_errors=True)
    return 0


def number(v):
    return v in ([2], [0, 0]) or (len(v) >= 3 and all(type(x) is int for x in v) and v[0] in (-1, 1) and all(0 <= x < 32768 for x in v[2:]) and v[2] and v[-1])


def flatten(e):
    """An event as status (everything that is not a number) and lists of numbers; second-order sections apart."""
    lists, sos = [], []
    if e.get("op") == "zpk2sos" and isinstance(e.get("res"), list):
        sos, e = e["res"], dict(e, res="sections")
    elif isinstance(e.get("sos"), dict) and "s" in e["sos"]:
        sos, e = e["sos"]["s"], dict(e, sos=dict(e["sos"], s="sections"))

    def walk(v):
        if isinstance(v, dict):
            return {k: walk(x) for k, x in v.items() if k not in ("id", "msg")}
        if isinstance(v, list):
            if number(v):
                lists.append([v])
                return "#"
            if v and all(isinstance(x, list) and number(x) for x in v):
                lists.append(v)
                return "#%d" % len(v)
            return [walk(x) for x in v]
        return v

    return dict(st=json.dumps(walk(e)), res=lists, sos=sos)


def histories(long, fresh, out):
    """The answers each call got in a fresh process and in two passes of a long one, side by side."""
    n = same = 0
    strip = lambda l: re.sub(r'^{"id":\d+,', "{", l)
    with open(out, "w") as w:
        for trace in long:
            if trace is None:
                continue
            passes, cur = {}, None
            for l in open(trace):
                if l.startswith('{"mark"'):
                    m = json.loads(l)
                    cur = passes.setdefault((m["mark"], m["pass"]), [])
                else:
                    cur.append(strip(l))
            for d in {d for d, _ in passes}:
                if fresh[d] is None:
                    continue
                seen = [[strip(l) for l in open(fresh[d])], passes.get((d, 1), []), passes.get((d, 2), [])]
                for i in range(max(map(len, seen))):
                    xs = [s[i] if i < len(s) else '{"op":"no such call"}' for s in seen]
                    if xs[0] == xs[1] == xs[2]:
                        same += 1
                        if i % 50:
                            continue
                    n += 1
                    es = [json.loads(x) for x in xs]
                    w.write(json.dumps(dict(id=n, op=es[0]["op"], driver=d, call=i + 1, seen=[flatten(e) for e in es]), separators=(",", ":")) + "\n")
    return dict(identical=same, written=n)


def merge(pairs, out):
    """Pair the recordings of two configurations; identical pairs agree trivially and only every 50th is written out."""
    n = same = missing = 0
    with open(out, "w") as w:
        for driver, pair in pairs:
            if None in pair:
                continue
            a, b = (open(t).read().splitlines() for t in pair)
            if len(a) != len(b):  # some operations exist in one configuration only
                cut = lambda l: re.sub(r'^{"id":\d+,', "", l).split(',"st":')[0]
                only = {}
                for l in b:
                    only.setdefault(cut(l), l)
                missing += sum(cut(l) not in only for l in a)
                a, b = zip(*[(l, only[cut(l)]) for l in a if cut(l) in only])
            for i, (x, y) in enumerate(zip(a, b)):
                x, y = (re.sub(r'^{"id":\d+,', "{", l) for l in (x, y))
                if x == y:
                    same += 1
                    if i % 50:
                        continue
                n += 1
                x, y = json.loads(x), json.loads(y)
                args = {k: x[k] for k in ("y", "deriv", "delta")} if driver == "C18" else {}
                w.write(json.dumps(dict(id=n, op=x["op"], ty=x.get("ty", "f64"), driver=driver, args=args, std=flatten(x), alloc=flatten(y)), separators=(",", ":")) + "\n")
    return dict(identical=same, written=n, in_std_only=missing)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except ToolError as e:
        print("check failed: %s" % e, file=sys.stderr)
        sys.exit(2)
