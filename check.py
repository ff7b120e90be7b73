#!/usr/bin/env python3
"""Decides one property: model checks the specification and enumerates its cases with TLC, replays the
cases against /repo's current tree, and has TLC judge the recorded trace against the specification.

  check.py PROPERTY        (tier from VERIF_TIER, seed from VERIF_SEED)

Exit 0: held on everything explored.  Exit 1, with a VIOLATION line: broken.  Exit 2: the check failed."""
import collections, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
SPEC = os.path.join(HERE, "spec")
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HARNESS, "target")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TIER = os.environ.get("VERIF_TIER", "quick")
TIER = TIER if TIER in ("quick", "thorough") else "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
START = time.time()
PIECE = 6000            # events per judged file

sys.path.insert(0, HERE)
from plan import PLAN   # noqa: E402


class Broken(Exception):
    """The check itself failed."""


def say(*a):
    print(f"[{time.time() - START:6.1f}s]", *a, flush=True)


# ------------------------------------------------------------------ building
def sources():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "crates"), os.path.join(HARNESS, "src")):
        for d, ds, fs in sorted(os.walk(base)):
            ds.sort()
            if "target" in ds:
                ds.remove("target")
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    for f in ("Cargo.toml", "Cargo.lock"):
        with open(os.path.join(REPO, f), "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


def build():
    stamp, now = os.path.join(TARGET, "sources.sha256"), sources()
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    try:
        with open(stamp) as f:
            same = f.read() == now
    except OSError:
        same = False
    if not same and os.path.isdir(TARGET):
        # do not rely on time stamps to see that a source changed
        for d, ds, _ in os.walk(TARGET):
            if d.endswith(".fingerprint"):
                for x in list(ds):
                    if x.startswith(("openid4vci-", "conformance-")):
                        shutil.rmtree(os.path.join(d, x))
                ds.clear()
    r = subprocess.run(["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(HARNESS, "Cargo.toml")],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=HARNESS)
    if r.returncode:
        raise Broken("the harness does not build:\n" + r.stdout[-4000:])
    with open(stamp, "w") as f:
        f.write(now)
    return os.path.join(TARGET, "debug", "conformance")


# ------------------------------------------------------------------ TLC
def tlc(module, work, env, workers=1, heap="3g", extra=(), cfg=None, limit=850):
    meta = os.path.join(work, "states-" + module + "-" + hashlib.md5(json.dumps(env, sort_keys=True).encode()).hexdigest()[:10])
    cmd = ["java", "-Xmx" + heap, "-Djava.io.tmpdir=" + work, "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-cp", CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", (cfg or module) + ".cfg", *extra, module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=limit)
    except subprocess.TimeoutExpired:
        raise Broken(f"TLC on {module}: no result in {limit} s")
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.stdout)
    if "-simulate" in extra:
        # a simulation does not count distinct states
        m = [(x, "0") for x in re.findall(r"The number of states generated: ([\d,]+)", r.stdout)]
    if r.returncode or not m:
        raise Broken(f"TLC on {module} ends with {r.returncode}:\n" + r.stdout[-6000:])
    gen, dist = (int(x.replace(",", "")) for x in m[-1])
    return {"module": module, "generated": gen, "distinct": dist, "out": r.stdout}


# ------------------------------------------------------------------ one shard: record, then judge
def record(exe, part, work, k, n):
    out, journal = (os.path.join(work, f"{part['name']}-{k}.{x}") for x in ("ndjson", "journal"))
    a = [exe, part["suite"], "--out", out, "--journal", journal, "--prop", part["prop"], "--seed", str(SEED),
         "--shard", str(k), "--shards", str(n), "--tier", TIER]
    if "cases" in part:
        a += ["--cases", part["cases"]]
    for o in ("focus", "reps", "other", "random"):
        if o in part:
            a += ["--" + o, str(part[o])]
    try:
        r = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=800, cwd=work)
    except subprocess.TimeoutExpired:
        raise Broken(f"the replay of {part['name']} takes too long")
    if r.returncode == 0:
        info = json.loads(r.stdout.strip().splitlines()[-1])
    elif r.returncode == 3 or r.returncode < 0 or r.returncode in (101, 134, 139):
        # the process died, or hung, in a call: that is what the call did
        try:
            with open(journal) as f:
                last = json.load(f)
        except (OSError, ValueError):
            raise Broken(f"the replay of {part['name']} ends with {r.returncode} before any call: {r.stderr[-2000:]}")
        good = []
        with open(out, errors="replace") as f:
            for line in f:
                try:
                    json.loads(line)
                    good.append(line if line.endswith("\n") else line + "\n")
                except ValueError:
                    pass
        ev = {"id": len(good) + 1, "op": "died", "of": last["op"], "in": last["in"],
              "out": {"ok": False, "err": {"name": "PANIC", "data": {"message": f"exit {r.returncode}"}, "inner": []}}}
        if part.get("histories"):
            ev["out"] = [{"ok": False, "did": "PANIC", "note": f"exit {r.returncode}", "c": 1, "how": "the process died", "r": 0, "same": True}
                         for _ in last["in"].get("steps", [0])]
        with open(out, "w") as f:
            f.writelines(good)
            f.write(json.dumps(ev) + "\n")
        info = {"events": len(good) + 1, "dropped": 0, "cases": 0, "steps": sum(len(json.loads(x)["out"]) for x in good) + len(ev["out"]) if part.get("histories") else 0}
    else:
        raise Broken(f"the replay of {part['name']} ends with {r.returncode}: {r.stderr[-3000:]}")
    return out, info


def judge(part, trace, info, work):
    events = info["events"]
    if events == 0:
        return [], {"generated": 0, "distinct": 0}
    bad = trace + ".bad"
    module = part.get("judge", "Judge")
    t = tlc(module, work, {"TRACE": trace, "PROP": part["prop"], "BAD": bad}, workers=part.get("judge_workers", 1))
    # a history of n steps has n + 1 states
    want = events + info["steps"] if part.get("histories") else events
    if t["distinct"] != want:
        raise Broken(f"{part['name']}: {events} events recorded, {t['distinct']} judged")
    out = []
    if os.path.exists(bad):
        with open(bad) as f:
            for line in f:
                x = json.loads(line)
                out.append(json.loads(x) if isinstance(x, str) else x)
    return out, t


def events_at(trace, ids):
    want, got = set(ids), {}
    with open(trace) as f:
        for n, line in enumerate(f, 1):
            if n in want:
                got[n] = line
    return {n: json.loads(x) for n, x in got.items()}


def shard(exe, part, work, k, n):
    trace, info = record(exe, part, work, k, n)
    bad, t = judge(part, trace, info, work)
    shape, sample = collections.Counter(), []
    with open(trace) as f:
        for i, line in enumerate(f):
            m = re.search(r'"op":\s?"(\w+)"', line)
            out = re.findall(r'"name":\s?"(\w+)"', line)
            shape[(m.group(1) if m else "?") + ":" + (out[0] if out else "ok")] += 1
            if k == 0 and i in (0, 7) and len(line) < 20000:
                sample.append(json.loads(line))
    return {"trace": trace, "info": info, "bad": bad, "tlc": t, "shape": shape, "sample": sample}


# ------------------------------------------------------------------ known findings
def known():
    with open(os.path.join(HERE, "known_findings.json")) as f:
        return json.load(f)["findings"]


def listed(findings, prop, reason, ev):
    """The finding that this reason of this event is, if it is listed."""
    for f in findings:
        if f["property"] == prop and f["status"] == "open" and re.fullmatch(f["reason"], reason):
            w = f.get("where", {})
            if all(re.search(v, json.dumps(ev.get(k))) for k, v in w.items()):
                return f
    return None


# ------------------------------------------------------------------ the check
def main():
    prop = sys.argv[1]
    if prop == "--setup":
        build()
        print("built")
        return 0
    plan = PLAN[prop](TIER)
    work = os.path.join(HERE, "work", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    evidence = os.path.join(HERE, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    if os.path.exists(evidence):
        os.remove(evidence)
    models = []
    with cf.ThreadPoolExecutor(8) as pool:
        exe = pool.submit(build)
        jobs = []
        for part in plan["parts"]:
            part["prop"] = prop
            if "module" in part:
                part["cases"] = os.path.join(work, part["name"] + ".cases")
                for k in range(part.get("splits", 1)):
                    depth = part.get("depth", 2)
                    extra = () if "simulate" not in part else (
                        "-simulate", f"num={part['simulate']}", "-depth", str(depth + 1), "-seed", str(1000 * SEED + k))
                    jobs.append(pool.submit(tlc, part["module"], work, {"DEPTH": str(depth), "CASES": f"{part['cases']}.{k}", "SPLIT": str(k)},
                                            part.get("workers", 4), "3g", extra, part.get("cfg")))
        for m in plan.get("models", []):
            jobs.append(pool.submit(tlc, m["module"], work, m.get("env", {}), m.get("workers", 4), "6g", m.get("extra", ()), m.get("cfg")))
        exe = exe.result()
        models = [j.result() for j in jobs]
    for part in plan["parts"]:
        if "cases" in part:
            with open(part["cases"], "wb") as f:
                for k in range(part.get("splits", 1)):
                    with open(f"{part['cases']}.{k}", "rb") as g:
                        shutil.copyfileobj(g, f)
                    os.remove(f"{part['cases']}.{k}")
    for m in models:
        say(f"{m['module']}: {m['distinct'] or 'simulated,'} {'distinct states,' if m['distinct'] else ''} {m['generated']} generated, invariants hold")
    work_items = []
    for part in plan["parts"]:
        work_items += [(part, k, part["shards"]) for k in range(part["shards"])]
    results = []
    with cf.ThreadPoolExecutor(plan.get("parallel", 7)) as pool:
        futs = [(p, pool.submit(shard, exe, p, work, k, n)) for p, k, n in work_items]
        results = [(p, f.result()) for p, f in futs]

    findings = known()
    violations, seen, shape, samples = [], {}, collections.Counter(), []
    for part, r in results:
        shape.update(r["shape"])
        samples += r["sample"]
        evs = events_at(r["trace"], [b["id"] for b in r["bad"]]) if r["bad"] else {}
        for b in sorted(r["bad"], key=lambda b: b["id"]):
            ev = evs[b["id"]]
            rest = []
            for reason in b["reasons"]:
                if reason.startswith("HARNESS"):
                    raise Broken(f"{part['name']} {b['id']}: {reason}")
                f = listed(findings, prop, reason, ev)
                if f:
                    seen.setdefault(f["id"], [f, 0])[1] += 1
                else:
                    rest.append(reason)
            if rest:
                violations.append({"property": prop, "reasons": rest, "event": ev, "part": part["name"],
                                   "seed": SEED, "tier": TIER})
        if not r["bad"] and r["info"]["events"] > 200:
            os.remove(r["trace"])
    for part in plan["parts"]:
        mine = [r for p, r in results if p is part]
        e = sum(r["info"]["events"] for r in mine)
        d = sum(r["info"]["dropped"] for r in mine)
        say(f"{part['name']}: {e} calls or histories recorded and judged, {d} dropped")
        if e < part.get("least", 1) or d > e // 20:
            raise Broken(f"{part['name']}: {e} events recorded, {d} dropped")
    for f, n in seen.values():
        print(f"KNOWN-FINDING: property={prop} {f['what']} ({n} of the calls explored)")
    total = sum(r["info"]["events"] for _, r in results)
    steps = sum(r["info"].get("steps", r["info"]["events"]) for _, r in results)
    cut = [json.loads(json.dumps(s)) for s in samples[:4]]
    cov = {
        "states": sum(m["distinct"] for m in models) + sum(r["tlc"]["distinct"] for _, r in results),
        "transitions": sum(m["generated"] for m in models) + sum(r["tlc"]["generated"] for _, r in results),
        "traces_validated_against_impl": total,
        "calls_judged": steps,
        "models": [{"module": m["module"], "distinct": m["distinct"], "generated": m["generated"]} for m in models],
        "outcomes": dict(shape.most_common(60)),
        "samples": cut or ["no event"],
    }
    with open(evidence, "w") as f:
        json.dump({"property": prop, "tier": TIER, "seed": SEED, "level": plan.get("level", "model_checking"), "coverage": cov,
                   "assumptions": plan.get("assumptions", []), "wall_s": round(time.time() - START, 1),
                   "violations": len(violations)}, f, indent=1)
    if violations:
        by = {}
        for v in violations:
            by.setdefault(tuple(sorted(v["reasons"])), v)
        for i, (reasons, v) in enumerate(sorted(by.items())[:20]):
            p = os.path.join(work, f"violation-{i}.json")
            with open(p, "w") as f:
                json.dump(v, f, indent=1)
            print(f"VIOLATION property={prop} replay={p} {'; '.join(reasons)}")
        say(f"{len(violations)} calls break {prop}")
        return 1
    say(f"{prop} held on everything explored")
    return 0


try:
    code = main()
except Broken as e:
    print("CHECK FAILED:", e, flush=True)
    code = 2
sys.exit(code)
