"""tools/mkseed.py: author tool. reads a spec file (python) defining SEEDS = [dict(id, property, file, old, new, demo, needs, breaks)]"""
import sys, os, json, subprocess, shutil, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for s in ns["SEEDS"]:
    if only and s["id"] not in only:
        continue
    d = os.path.join(ROOT, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mks_")
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
    subprocess.check_call("git -C /repo archive HEAD | tar x -C %s" % w, shell=True)
    subprocess.check_call("cd %s && git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm x" % w, shell=True)
    for f, o, n in s["edits"]:
        p = os.path.join(w, f)
        t = open(p).read()
        assert t.count(o) == 1, (s["id"], f, t.count(o), o)
        open(p, "w").write(t.replace(o, n))
    df = subprocess.run("cd %s && git diff" % w, shell=True, capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(df)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nD="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONPATH="$PWD" JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1\n'
                                    + ('export XLA_FLAGS="--xla_force_host_platform_device_count=%d"\n' % s["devices"] if s.get("devices") else "")
                                    + 'exec /opt/venv/bin/python -W ignore "$D/demo.py"\n')
    open(d + "/demo.py", "w").write(s["demo"].strip("\n") + "\n")
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(w)
    print("made", s["id"])
