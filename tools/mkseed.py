"""Build /verif/seeded/<id>/ from a description: python3 tools/mkseed.py SPEC.py [ID...]   (SPEC.py calls seed(...))."""
import json, os, re, shutil, subprocess, sys
from pathlib import Path
HERE = Path(__file__).resolve().parent
OUT = HERE.parent / "seeded"
PY = "/opt/venv/bin/python"
only = set(sys.argv[2:])


def seed(id, prop, needs, breaks, edits, demo):
    if only and id not in only:
        return
    d = OUT / id
    shutil.rmtree(d, ignore_errors=True)
    d.mkdir(parents=True)
    wt = Path("/tmp/seedwt")
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
    shutil.copytree("/repo", wt, ignore=shutil.ignore_patterns("__pycache__", ".git"))
    subprocess.run("git init -q && git add -A -f src && git -c user.email=a -c user.name=a commit -qm x", shell=True, cwd=wt, check=True)
    for f, old, new in edits:
        p = wt / "src/acetone_nnet" / f
        s = p.read_text()
        assert s.count(old) == 1, (id, f, s.count(old))
        p.write_text(s.replace(old, new))
    (d / "patch.diff").write_text(subprocess.run(["git", "diff"], cwd=wt, capture_output=True, text=True, check=True).stdout)
    (d / "demo.py").write_text(demo.lstrip("\n"))
    shutil.copy(HERE / "seedlib/dm.py", d / "dm.py")
    (d / "demo.sh").write_text('#!/bin/bash\nexport CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3 TF_ENABLE_ONEDNN_OPTS=0 PYTHONDONTWRITEBYTECODE=1\n'
                               'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d / "demo.sh", 0o755)
    (d / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
    run = lambda env: subprocess.run(["bash", str(d / "demo.sh")], cwd="/repo", capture_output=True, text=True, env={**os.environ, **env})
    a = run({})
    b = run({"PYTHONPATH": str(wt / "src")})
    shutil.rmtree(wt)
    r = subprocess.run(["git", "-C", "/repo", "apply", "--check", str(d / "patch.diff")])
    print(id, "OK" if a.returncode == 0 and b.returncode and r.returncode == 0 else "BAD", a.returncode, b.returncode, b.stdout[-150:].replace("\n"," ") or b.stderr[-300:] if b.returncode else "")
    if a.returncode:
        print((a.stdout + a.stderr)[-1500:])


exec(compile(Path(sys.argv[1]).read_text(), sys.argv[1], "exec"))
