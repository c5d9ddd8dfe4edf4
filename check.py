#!/usr/bin/env python3
"""Decides one property: ./check.py <ID>   (VERIF_SEED, VERIF_TIER=quick|thorough)

 1. builds the drivers against /repo's working tree,
 2. model-checks the design-level TLA+ modules of the property with TLC,
 3. lets the drivers exercise the real code, and has TLC judge every recorded event
    against the TLA+ specification (trace validation).
Exit 0: held. Exit 1: a VIOLATION line was printed. Exit 2: no answer (tool error).
"""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
HARN = os.path.join(HERE, "harness")
OUT = os.path.join(HERE, "out")
TGT = os.path.join(HARN, "target")
JAVA = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-cp",
        "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"]
sys.path.insert(0, HERE)
from suites import SUITES, PROPS  # noqa: E402


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="1.88", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TGT)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def build(pkgs):
    args = ["cargo", "build", "--offline", "--locked"] + [x for p in sorted(pkgs) for x in ("-p", p)]
    r = subprocess.run(args, cwd=HARN, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        log(r.stdout[-6000:])
        raise ToolError("the harness does not build against /repo")


def tlc(module, cfg, workers, extra_env, meta, heap, timeout, args=()):
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    e = dict(os.environ)
    e.update(extra_env)
    cmd = JAVA[:1] + [f"-Xmx{heap}", "-Xss64m"] + JAVA[1:] + ["tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers),
          "-metadir", meta, "-config", cfg, *args, module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC ran out of time on {module}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout


def counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def model_check(m, tier, work):
    cfg = m.get("cfg_" + tier, m["module"] + ".cfg")
    t = time.time()
    rc, out = tlc(m["module"], cfg, 8, {}, os.path.join(work, "mc-" + cfg), m.get("heap", "8g"), 850,
                  ["-deadlock"] if m.get("deadlock_ok", True) else [])
    gen, dist = counts(out)
    if rc != 0 or "No error has been found" not in out:
        path = os.path.join(work, f"model-{m['module']}.txt")
        open(path, "w").write(out)
        raise ToolError(f"model {m['module']} ({cfg}) fails in the specification itself, see {path}\n" + out[-3000:])
    log(f"model {cfg}: {gen} states generated, {dist} distinct, {time.time()-t:.1f} s")
    return {"model": cfg, "generated": gen, "distinct": dist}


BAD = re.compile(r'<<\s*"BAD",\s*(\d+),\s*"([^"]*)",\s*"([^"]*)"\s*>>')
DONE = re.compile(r'<<\s*"DONE",\s*(\d+),\s*(\d+)\s*>>')


def run_suite(name, tier, seed, work):
    """Runs one driver and validates its trace. Returns counts and the bad lines."""
    s = SUITES[name]
    d = os.path.join(work, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    cmd = [os.path.join(TGT, "debug", s["bin"]), *s.get("args", []), str(seed), tier, d]
    t = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600, errors="replace",
                           env=dict(env(), DRIVER_BIN=os.path.join(TGT, "debug")))
        died = None if r.returncode == 0 else f"exit status {r.returncode}: {r.stdout[-1500:]}"
    except subprocess.TimeoutExpired:
        died = "did not finish within 600 s (1 s expected): the code under test hangs"
    trace = os.path.join(d, "trace.ndjson")
    if died:
        rep = os.path.join(work, f"{name}-driver.txt")
        open(rep, "w").write(" ".join(cmd) + "\n" + died + "\n")
        if r_is_tool_error(died):
            raise ToolError(f"driver {name}: {died}")
        return dict(name=name, lines=0, states=0, trans=0, bad=[("*", "the code under test brings the driver down", rep)], samples=[], stats={})
    lines = open(trace).read().splitlines()
    n = len(lines)
    if n == 0:
        raise ToolError(f"driver {name} recorded nothing")
    k = max(1, min(8, n // s.get("min_shard", 150)))
    # heavy lines cluster, so deal them round-robin
    shards = [[] for _ in range(k)]
    for i, ln in enumerate(lines):
        shards[i % k].append((i, ln))
    jobs = []
    for i, sh in enumerate(shards):
        p = os.path.join(d, f"shard{i}.ndjson")
        open(p, "w").write("\n".join(x for _, x in sh) + "\n")
        ev = {"TRACE": p}
        for var, f in s.get("files", {}).items():
            ev[var] = os.path.join(d, f)
        jobs.append((i, sh, ev))

    def one(job):
        i, sh, ev = job
        return job, tlc(s["spec"], s.get("cfg", s["spec"] + ".cfg"), 1, ev, os.path.join(d, f"md{i}"), "3g", 850)
    bad, states, trans = [], 0, 0
    with cf.ThreadPoolExecutor(8) as ex:
        for (i, sh, ev), (rc, out) in ex.map(one, jobs):
            g, dist = counts(out)
            states += dist
            trans += max(0, g - 1)
            m = DONE.search(out)
            if rc != 0 or not m or m.group(1) != m.group(2) or int(m.group(1)) != len(sh):
                p = os.path.join(d, f"tlc{i}.txt")
                open(p, "w").write(out)
                raise ToolError(f"TLC could not judge shard {i} of {name}, see {p}\n" + out[-2500:])
            for b in BAD.finditer(out):
                bad.append((b.group(2), b.group(3), sh[int(b.group(1)) - 1]))
    bad.sort(key=lambda b: b[2][0] if isinstance(b[2], tuple) else -1)
    stats = {}
    st = os.path.join(d, "stats.json")
    if os.path.exists(st):
        stats = json.load(open(st))
    samples = []
    for i in {0, n // 2, n - 1}:
        samples.append(json.loads(lines[i]) if len(lines[i]) < 4000 else lines[i][:4000] + "...")
    log(f"suite {name}: {n} recorded cases judged by TLC, {len(bad)} bad, {time.time()-t:.1f} s {json.dumps(stats)[:300]}")
    for f in os.listdir(d):
        if f.startswith("shard") or (not bad and f.endswith(".ndjson")):
            os.remove(os.path.join(d, f))
    return dict(name=name, lines=n, states=states, trans=trans, bad=bad, samples=samples, stats=stats, cmd=cmd)


def r_is_tool_error(died):
    return "DRIVER-ERROR" in died


def known():
    res = []
    p = os.path.join(HERE, "known-findings.txt")
    for ln in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", ln)
        if m:
            res.append(m.groups())
    return res


def main():
    prop = sys.argv[1]
    p = PROPS[prop]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    work = os.path.join(OUT, prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    t0 = time.time()
    build({x for s in p["suites"] for x in [SUITES[s]["pkg"], *SUITES[s].get("pkgs", [])]})
    log(f"built in {time.time()-t0:.1f} s")
    models = [model_check(m, tier, work) for m in p.get("models", [])]
    res = []
    seeds = [seed] if tier == "quick" else [seed + 1000 * i for i in range(p.get("thorough_seeds", 3))]
    for s in p["suites"]:
        for sd in seeds if tier == "thorough" and SUITES[s].get("reseed", True) else seeds[:1]:
            res.append(run_suite(s, tier, sd, work))
    viol, kf, other = [], {}, 0
    for r in res:
        for (pid, msg, where) in r["bad"]:
            if pid not in (prop, "*"):
                other += 1
                continue
            line = where[1] if isinstance(where, tuple) else ""
            # the specification itself names the cases a known finding covers
            m = re.match(r"\[(\S+)\]", msg)
            hit = [k for k in known() if m and k[0] == prop and k[1] == m.group(1)]
            if hit:
                kf[hit[0]] = kf.get(hit[0], 0) + 1
            else:
                viol.append((r, msg, where))
    for k, n in kf.items():
        log(f"KNOWN-FINDING: property={prop} {k[2].strip()} ({n} cases)")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(m["distinct"] for m in models) + sum(r["states"] for r in res),
            "transitions": sum(max(0, m["generated"] - 1) for m in models) + sum(r["trans"] for r in res),
            "traces_validated_against_impl": sum(r["lines"] for r in res),
            "models": models,
            "suites": [{k: r[k] for k in ("name", "lines", "stats")} for r in res],
            "bad_lines_of_other_properties": other,
            "samples": [x for r in res for x in r["samples"]][:4],
        },
        "assumptions": p.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for i, (r, msg, where) in enumerate(viol[:5]):
        rep = os.path.join(work, f"violation-{i}.json")
        if isinstance(where, tuple):
            json.dump({"property": prop, "reason": msg, "suite": r["name"], "case": where[0], "driver": r.get("cmd"),
                       "event": json.loads(where[1])}, open(rep, "w"), indent=1)
        else:
            rep = where
        log(f"  {r['name']}: {msg}")
        log(f"VIOLATION property={prop} replay={rep}")
    if len(viol) > 5:
        log(f"  ... and {len(viol) - 5} more")
    log(f"{prop}: {'VIOLATED' if viol else 'held'} ({len(viol)} violating cases, {ev['coverage']['traces_validated_against_impl']} judged, {ev['wall_s']} s)")
    return 1 if viol else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except ToolError as e:
        log("TOOL ERROR:", e)
        sys.exit(2)
