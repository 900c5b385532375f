#!/usr/bin/env python3
"""run_check.py <property> [quick|thorough]   |   run_check.py <property> --replay FILE

Decides one property on /repo's current working tree:
  1. deductive part   (engine.sym_main): symbolic execution of the real functions, every contract obligation discharged by
     the ring-normal-form prover or by z3/cvc5, for all inputs and all extents;
  2. run-time part    (engine.world): the same contracts evaluated on concrete executions of the real code (bounded) - it
     replays refuted obligations against the real code and stands in for functions outside the prover's reach.
Exit 0: held.  Exit 1 + VIOLATION line: broken.
"""
import sys, os, json, time, subprocess, threading, tempfile, importlib, resource, concurrent.futures as cf
ROOT = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if os.path.realpath(sys.executable) != os.path.realpath(PY) or os.environ.get("PYTHONHASHSEED") != "0" or sys.prefix != "/opt/venv":
    os.environ["PYTHONHASHSEED"] = "0"
    if os.environ.get("VP_REEXEC") != "1":
        os.environ["VP_REEXEC"] = "1"
        os.execv(PY, [PY, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:])
os.chdir(ROOT)
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True


def big_stack():
    try:
        s, h = resource.getrlimit(resource.RLIMIT_STACK)
        resource.setrlimit(resource.RLIMIT_STACK, (h if h != resource.RLIM_INFINITY else 2 ** 30, h))
    except Exception:
        pass


def run_symbolic(prop, tier, seed, limit):
    fd, out = tempfile.mkstemp(prefix="vps_", suffix=".json")
    os.close(fd)
    env = dict(os.environ, JAX_PLATFORMS="cpu", PYTHONPATH=ROOT, PYTHONDONTWRITEBYTECODE="1", PIP_NO_INDEX="1",
               XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    t = time.time()
    note = ""
    try:
        p = subprocess.run([PY, "-W", "ignore", "-m", "engine.sym_main", prop, tier, str(seed), out], env=env, timeout=limit,
                           stdout=None if os.environ.get("VP_DEBUG") else subprocess.DEVNULL, stderr=subprocess.PIPE, text=True,
                           preexec_fn=big_stack, cwd=ROOT)
        if p.returncode != 0:
            note = "prover process ended with %s: %s" % (p.returncode, p.stderr[-1200:])
        if os.environ.get("VP_DEBUG"):
            sys.stderr.write(p.stderr[-4000:])
    except subprocess.TimeoutExpired:
        note = "prover process hit its time limit"
    try:
        r = json.load(open(out))
    except Exception:
        r = dict(obs=[], functions=[], assumptions=[], smt={}, blocks=[])
    os.unlink(out)
    r["note"] = note
    r["wall"] = round(time.time() - t, 1)
    return r


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from engine.world import run_world
    meta = json.load(open(os.path.join(ROOT, "contracts", "worlds.json")))[prop]
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        rp = json.load(open(sys.argv[3]))
        rc = 0
        for c in rp.get("failing_inputs", []):
            res = run_world(prop, rp.get("tier", "quick"), rp["seed"], c["world"]["R"], c["world"]["D"], only=[c["case"]])
            for x in res:
                print(json.dumps(x))
                rc |= int(x["ok"] is False)
        sys.exit(rc)
    t0 = time.time()
    worlds = meta["thorough" if tier == "thorough" and "thorough" in meta else "quick"]
    budget = 700 if tier == "quick" else 3000
    seeds = [seed] if tier == "quick" else [seed, seed + 1, seed + 2]
    parts = os.environ.get("VP_PART", "both")
    with cf.ThreadPoolExecutor(8) as ex:
        fs = ex.submit(run_symbolic, prop, tier, seed, budget) if parts in ("both", "sym") else None
        fw = [ex.submit(run_world, prop, tier, s, R, D, None, budget) for s in seeds for R, D in worlds] if parts in ("both", "bat") else []
        S = fs.result() if fs else dict(obs=[], functions=[], assumptions=[], smt={}, blocks=[], note="", wall=0)
        cases = [x for f in fw for x in f.result()]
    known = load_known(prop)
    obs = S["obs"]
    refuted = [o for o in obs if o["status"] == "refuted"]
    undec = [o for o in obs if o["status"] == "undecided"]
    proved = [o for o in obs if o["status"] == "proved"]
    fails = [c for c in cases if c["ok"] is False]
    kf = []

    def is_known(kind, key):
        for k in known:
            if k["kind"] == kind and key == k["key"]:
                kf.append(k)
                return True
        return False
    fails = [c for c in fails if not is_known("case", c["case"])]
    refuted = [o for o in refuted if not is_known("obligation", o["name"])]
    viol = []
    lines = []
    seen = set()
    for k in kf:
        if k["text"] not in seen:
            seen.add(k["text"])
            print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    if fails or refuted:
        rdir = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s.json" % prop)
        json.dump(dict(property=prop, tier=tier, seed=seed, failing_inputs=fails[:40], refuted_obligations=refuted[:40],
                       undecided=undec[:40],
                       how_to_replay="python3 /verif/run_check.py %s --replay %s" % (prop, rp)), open(rp, "w"), indent=1)
        for o in refuted[:10]:
            print("obligation refuted: %s: %s" % (o["name"], o["detail"][:400]))
        for c in fails[:10]:
            print("failing input: case %s in world %s: %s" % (c["case"], c["world"], c.get("detail", "")[:400]))
        lines.append("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if fails else " no-failing-input-found"))
    ran = [c for c in cases if c["ok"] is not None]
    skipped = [c for c in cases if c["ok"] is None]
    backends = {}
    for o in proved:
        backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    ev = dict(
        property=prop, tier=tier, seed=seed, level="proof",
        coverage=dict(
            obligations=len(obs), discharged=len(proved),
            checker_cmd="python3 /verif/run_check.py %s %s" % (prop, tier),
            trusted_base=meta.get("trusted", []) + [
                "engine/terms.py (ring normal form), engine/sym.py (JAX primitive semantics), engine/harness.py (stand-ins)",
                "z3 / cvc5", "JAX transformations (vmap, grad, jit tracing) and flax module dispatch, executed as they are"],
            by_backend=backends,
            functions_under_contract=S["functions"],
            undecided=[dict(name=o["name"], why=o["detail"][:300]) for o in undec][:60],
            refuted=[dict(name=o["name"], why=o["detail"][:300]) for o in refuted][:60],
            solver=S.get("smt"), blocks=S.get("blocks"), prover_note=S.get("note", ""), prover_wall_s=S.get("wall"),
            samples=[dict(name=o["name"], backend=o["backend"], t=o["time"]) for o in proved[:12]],
            bounded_runtime_contracts=dict(
                label="bounded, not counted as proved", worlds=worlds, cases_run=len(ran), cases_failed=len(fails),
                evaluations=sum(c.get("n", 1) for c in ran if c["ok"]),
                skipped=[dict(case=c["case"], why=c.get("detail", "")[:200]) for c in skipped][:20]),
        ),
        assumptions=S["assumptions"] + meta.get("assumptions", []),
        violations=len(fails) + len(refuted), wall_s=round(time.time() - t0, 1))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d obligations, %d discharged, %d undecided, %d refuted; run-time contracts: %d cases, %d failed, %d skipped (%.0fs)" % (
        prop, len(obs), len(proved), len(undec), len(refuted), len(ran), len(fails), len(skipped), time.time() - t0))
    for o in undec[:12]:
        print("  undecided (bounded stand-in decides): %s: %s" % (o["name"], o["detail"][:160]))
    if S.get("note"):
        print("  prover: " + S["note"][-300:])
    for l in lines:
        print(l)
    sys.exit(1 if lines else 0)


def load_known(prop):
    f = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)).get("findings", []) if k["property"] == prop]


if __name__ == "__main__":
    main()
