"""Development aid: build a planted bug under seeded/<id> from textual changes and confirm it.
python3 tools/seed.py SPEC.py   where SPEC defines id, prop, edits=[(file, old, new)], demo (python source), needs, breaks"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def plant(id, prop, edits, demo, needs, breaks):
    d = tempfile.mkdtemp(prefix="seed")
    try:
        run("git", "clone", "-q", "/repo", d + "/r")
        r = d + "/r"
        out = os.path.join(HERE, "seeded", id)
        os.makedirs(out, exist_ok=True)
        open(out + "/demo.py", "w").write(demo.lstrip("\n"))
        open(out + "/demo.sh", "w").write('#!/bin/bash\nexec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(out + "/demo.sh", 0o755)
        a = run("bash", out + "/demo.sh", cwd=r)
        for f, old, new in edits:
            p = f"{r}/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = run("git", "-C", r, "diff").stdout
        open(out + "/patch.diff", "w").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + "/meta.json", "w"), indent=1)
        b = run("bash", out + "/demo.sh", cwd=r)
        t = run("/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests", cwd=r, env={**os.environ, "PYTHONPATH": r})
        tests = t.stdout.strip().splitlines()[-1] if t.stdout else t.stderr[-200:]
        new_lines = run("git", "-C", "/repo", "diff", "--stat").stdout
        print(f"{id}: clean demo {a.returncode}, patched demo {b.returncode}, tests: {tests}", end="; ")
        if a.returncode or not b.returncode:
            print("DEMO PROBLEM", a.stderr[-500:], b.stdout[-300:])
        # removed lines must be lines of the original repository
        base = run("git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD").stdout.split()[0]
        for f in {e[0] for e in edits}:
            orig = run("git", "-C", "/repo", "show", f"{base}:{f}").stdout.splitlines()
            for l in diff.splitlines():
                if l.startswith("-") and not l.startswith("---") and l[1:] not in orig:
                    print("NOT AN ORIGINAL LINE:", l)
        c = run(sys.executable, "-m", "sa.check", prop, cwd=HERE, env={**os.environ, "VERIF_REPO": r})
        print("check exit", c.returncode, [l for l in c.stdout.splitlines() if "undecided:" in l][:2])
        if c.returncode != 1:
            print(c.stdout[-1500:])
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    for p in sys.argv[1:]:
        ns = {"plant": plant}
        exec(open(p).read(), ns)
