"""tools/reftest.py FILE [names]: apply behaviour-preserving edits in a scratch copy and run the named checks; they must stay quiet"""
import sys, os, subprocess, shutil
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for name, props, edits in ns["R"]:
    if only and name not in only:
        continue
    w = "/tmp/ref_%s" % name
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["cp", "-a", os.environ.get("REF_BASE", "/repo"), w])
    ok = True
    for f, o, n in edits:
        p = os.path.join(w, f)
        t = open(p).read()
        if t.count(o) != 1:
            print(name, "EDIT DOES NOT APPLY", f, t.count(o), repr(o[:80]))
            ok = False
            continue
        open(p, "w").write(t.replace(o, n))
    if ok:
        for c in props:
            r = subprocess.run("VP_REPO=%s timeout 900 python3 run_check.py %s quick 2>&1 | tail -40" % (w, c), shell=True, capture_output=True, text=True, cwd="/verif")
            lines = [l[:260] for l in r.stdout.splitlines() if "VIOLATION" in l or "obligations," in l or "failing input" in l or "refuted" in l or "undecided" in l]
            print(name, c, "\n   ".join(lines[-1:] if not any("VIOLATION" in l for l in lines) else lines[-8:]), flush=True)
            if os.environ.get("REF_UND"):
                print("\n   ".join(l for l in lines if "undecided" in l)[:3000])
    shutil.rmtree(w, ignore_errors=True)
