"""Common driver: build, seeded runs, judging, minimisation, replay gate, evidence.

A check is an object with
  id, level_rule (text), quick_runs, thorough_runs
  build()                      once, in the parent, before forking
  gen(rng, tier, i) -> plan    JSON-able; the only input of a run
  execute(plan) -> (log, facts)   log: str, canonical event log; facts: dict of counters / measures
  judge(plan, log, facts) -> [(class, message)]     pure function of its arguments
  shrink(plan) -> iterator of smaller candidate plans
"""
import collections, hashlib, json, multiprocessing, os, random, signal, subprocess, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
REPLAYS = os.path.join(VERIF, "replays")
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


class HarnessError(Exception):
    pass


def log_hash(log):
    return hashlib.sha256(log.encode("utf-8", "replace")).hexdigest()[:24]


# ------------------------------------------------------------------ known findings
def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                d = dict(kv.split("=", 1) for kv in line[8:].split(" | ")[0].split())
                d["what"] = line.split(" | ", 1)[1] if " | " in line else ""
                out.append(d)
    return out


# ------------------------------------------------------------------ worker
_CHECK = None


def _one(args):
    i, seed, tier = args
    c = _CHECK
    rng = random.Random("%s/%s/%d" % (seed, c.id, i))
    plan = None
    try:
        plan = c.gen(rng, tier, i)
        t = time.monotonic()
        log, facts = c.execute(plan)
        v = c.judge(plan, log, facts)
        h = log_hash(log)
        facts = dict(facts)
        facts["_wall"] = time.monotonic() - t
        same = None
        if v or i % 50 == 0:      # determinism: the same plan again gives the same event log
            log2, _ = c.execute(json.loads(json.dumps(plan)))
            same = log_hash(log2) == h
        return i, plan if (v or same is False or i < 3) else None, log if v else "", facts, v, h, same, None
    except Exception:
        return i, plan, "", {}, [], "", None, traceback.format_exc()


def _init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def minimise(c, plan, cls, budget_s):
    """greedy delta debugging on candidates offered by the check; the violation class must persist"""
    t0 = time.monotonic()
    tries = 0
    best = plan
    progress = True
    while progress and time.monotonic() - t0 < budget_s:
        progress = False
        for cand in c.shrink(best):
            if time.monotonic() - t0 > budget_s:
                break
            tries += 1
            try:
                log, facts = c.execute(cand)
                v = c.judge(cand, log, facts)
            except Exception:
                continue
            if any(k == cls for k, _ in v):
                best = cand
                progress = True
                break
    return best, tries


def list_shrinks(lst):
    """candidate smaller lists: big chunks first, then single items"""
    n = len(lst)
    k = n // 2
    while k >= 1:
        for s in range(0, n, k):
            cand = lst[:s] + lst[s + k:]
            if len(cand) < n:
                yield cand
        if k == 1:
            break
        k //= 2


def run_replay(c, path, quiet=False):
    d = json.load(open(path))
    log, facts = c.execute(d["plan"])
    v = c.judge(d["plan"], log, facts)
    h = log_hash(log)
    if not quiet:
        print(log)
        for k, m in v:
            print("VIOLATES %s: %s" % (k, m))
        print("hash %s (recorded %s)" % (h, d.get("hash")))
    return {"hash": h, "classes": sorted({k for k, _ in v})}


def main(c, tier):
    global _CHECK
    _CHECK = c
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    nmax = int(os.environ.get("VERIF_RUNS", "0")) or (c.quick_runs if tier == "quick" else c.thorough_runs)
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    print("property %s tier %s seed %d runs %d" % (c.id, tier, seed, nmax), flush=True)
    c.build()
    tb = time.monotonic() - t0
    limit = 560 if tier == "quick" else float(os.environ.get("VERIF_THOROUGH_S", "3300"))

    tot = collections.Counter()
    mx = {}
    distinct, states = set(), set()
    samples, bad, errs, nondet = [], [], [], []
    done = 0
    truncated = False
    known = [k for k in known_findings() if k.get("property") == c.id]
    seen_known = set()
    with multiprocessing.get_context("fork").Pool(WORKERS, _init) as pool:
        it = pool.imap_unordered(_one, ((i, seed, tier) for i in range(nmax)), chunksize=1)
        for i, plan, log, facts, v, h, same, err in it:
            done += 1
            if err:
                errs.append((i, err, plan))
            if same is False:
                nondet.append((i, plan))
            if h:
                if facts.get("nontrivial", 1):
                    distinct.add(h)
            for k, x in facts.items():
                if k == "_states":
                    states.update(x)
                elif k == "_wall":
                    tot["exec_wall"] += x
                elif isinstance(x, (int, float)):
                    tot[k] += x
            if plan is not None and not v and len(samples) < 3:
                samples.append((i, c.describe(plan)))
            for f in known:
                if any(k == f.get("class") for k, _ in v):
                    seen_known.add(f["class"])
            v = [(k, m) for k, m in v if not any(f.get("class") == k for f in known)]
            if v:
                bad.append((i, plan, v, h))
            if len(bad) >= 12 or len(errs) >= 5:
                pool.terminate()
                truncated = True
                break
            if time.monotonic() - t0 > limit:
                pool.terminate()
                truncated = True
                break
    wall = time.monotonic() - t0
    code = 0
    nviol = 0
    real = sorted(bad, key=lambda b: b[0])
    for f in known:
        # a listed finding is announced on every run; whether this run's seeds hit it is part of the line
        print("KNOWN-FINDING: property=%s %s%s" % (c.id, f["what"], "" if f["class"] in seen_known else " (not hit by this run's seeds)"))
    fail_lines = []
    if errs and not real:
        for i, e, plan in errs[:2]:
            print("HARNESS ERROR in run %d\n%s" % (i, e))
        code = 3
    if nondet and not real:
        print("NONDETERMINISM: runs %s gave different event logs for the same plan" % [i for i, _ in nondet][:5])
        json.dump(nondet[0][1], open(os.path.join(REPLAYS, c.id + "-nondet.json"), "w"))
        code = 4
    gated = False
    for i, plan, v, h in real[:6]:
        cls, msg = v[0]
        # the seed runs again in this process: same log hash
        try:
            log, facts = c.execute(plan)
        except Exception:
            traceback.print_exc()
            continue
        v2 = c.judge(plan, log, facts)
        if not any(k == cls for k, _ in v2):
            fail_lines.append("run %d: %s did not reproduce in-process" % (i, cls))
            continue
        small, tries = minimise(c, plan, cls, 40 if tier == "quick" else 240)
        ok = False
        for cand in ([small] if small is not plan else []) + [plan]:
            log, facts = c.execute(cand)
            vv = [x for x in c.judge(cand, log, facts) if x[0] == cls]
            if not vv:
                continue
            path = os.path.join(REPLAYS, "%s-%d-%d.json" % (c.id, seed, i))
            with open(path, "w") as f:
                json.dump({"property": c.id, "seed": seed, "run": i, "class": cls, "message": vv[0][1], "hash": log_hash(log),
                           "plan": cand, "log": log.splitlines()[-400:]}, f, indent=1)
            res = []
            for hs in ("0", "77"):     # fresh processes; another hash seed
                env = dict(os.environ, PYTHONHASHSEED=hs)
                p = subprocess.run([sys.executable, os.path.join(VERIF, "bin", "replay"), "--json", path], stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, env=env)
                try:
                    res.append(json.loads(p.stdout.decode().strip().splitlines()[-1]))
                except Exception:
                    res.append({"hash": "crash", "classes": [], "err": p.stderr.decode()[-500:]})
            if all(r["hash"] == log_hash(log) and cls in r["classes"] for r in res):
                ok = True
                print("violation in run %d (seed %d): %s: %s" % (i, seed, cls, vv[0][1]))
                print("minimised with %d trials; plan: %s" % (tries, c.describe(cand)[:1500]))
                print("VIOLATION property=%s replay=%s" % (c.id, path))
                nviol += 1
                break
            fail_lines.append("run %d: %s: fresh-process replay differed: %s" % (i, cls, json.dumps(res)[:600]))
        if ok:
            gated = True
            break
    if gated:
        code = 1
    elif real:
        print("violations seen but none passed the reproduction gate:\n" + "\n".join(fail_lines))
        code = 5
    wall = time.monotonic() - t0
    simsec = tot.get("sim_s", 0)
    faults = {k[6:]: v for k, v in sorted(tot.items()) if k.startswith("fault_")}
    reach = {k[6:]: v for k, v in sorted(tot.items()) if k.startswith("reach_")}
    work = {k: (round(v, 3) if isinstance(v, float) else v) for k, v in sorted(tot.items())
            if not k.startswith(("fault_", "reach_")) and k not in ("nontrivial", "exec_wall", "sim_s")}
    ev = {"property": c.id, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2), "violations": nviol,
          "coverage": {"evaluations": done, "distinct_nontrivial": len(distinct), "rule": c.rule,
                       "samples": [{"run": i, "plan": s[:3000]} for i, s in samples] or ["none"],
                       "runs_per_hour": round(done / max(wall - tb, 1e-3) * 3600), "build_s": round(tb, 2),
                       "simulated_seconds": round(simsec, 3), "fault_counts": faults, "reach_probes": reach, "work": work,
                       "distinct_event_logs": len(distinct), "distinct_states": len(states), "state_measure": c.state_measure,
                       "determinism_rechecks": (done + 49) // 50, "real_components": c.real, "stub_components": c.stubs,
                       "stopped_early": truncated, "workers": WORKERS}}
    ev["assumptions"] = c.assumptions
    with open(os.path.join(VERIF, "evidence", c.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%d runs, %d distinct, %.1f simulated s, faults %s, reach %s, %.1f s wall (build %.1f)" % (done, len(distinct), simsec, faults, reach, wall, tb))
    if code == 0:
        print("OK property=%s held on everything explored" % c.id)
    return code


class Check:
    quick_runs = 200
    thorough_runs = 20000
    rule = ""
    state_measure = "distinct canonical event logs"
    real = []
    stubs = []
    assumptions = []

    def build(self):
        pass

    def describe(self, plan):
        return json.dumps(plan)

    def shrink(self, plan):
        return iter(())
