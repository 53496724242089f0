"""plant a bug: python3 tools/seed.py SPEC.py  -- SPEC defines BUGS=[dict(id,prop,edits=[(file,old,new)],demo=python source,needs,breaks)]
verifies in a scratch copy of /repo: patch applies, demo 0 on the unchanged tree and nonzero with the patch, stable tests pass"""
import json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
DEMO = '''#!/bin/bash
# exit 0 when the property holds, non-zero when it is broken
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)


for b in ns["BUGS"]:
    if only and b["id"] not in only:
        continue
    d = os.path.join(H, "seeded", b["id"])
    w = tempfile.mkdtemp(prefix="seed")
    try:
        sh("git -C %s archive HEAD | tar x -C %s" % (os.environ.get("SEED_REPO", "/repo"), w), "/")
        sh("git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x", w)
        # orig lines must not be ours
        for f, old, new in b["edits"]:
            p = os.path.join(w, f)
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", w).stdout
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.py"), "w").write(b["demo"])
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        r1 = sh("bash %s/demo.sh" % d, w)
        sh("git stash -q", w)
        r0 = sh("bash %s/demo.sh" % d, w)
        print(b["id"], "base rc", r0.returncode, "patched rc", r1.returncode, "" if r0.returncode == 0 else r0.stderr[-400:], "" if r1.returncode else "NOT BROKEN")
        base = sh("git -C /repo show b7be6b6:%s" % b["edits"][0][0], "/").stdout
        for f, old, new in b["edits"]:
            base = sh("git -C /repo show b7be6b6:%s" % f, "/").stdout
            if old not in base:
                print("   WARNING: edited text not in the original file", f)
    finally:
        shutil.rmtree(w)
