"""Development aid: run checks against a scratch copy of the sources with one textual change.
python3 tools/mutate.py C05[,C01] FILE OLD NEW [COUNT]   (FILE relative to /repo/elgas)"""
import os
import shutil
import subprocess
import sys
import tempfile

props, file, old, new = sys.argv[1:5]
old, new = old.encode().decode("unicode_escape"), new.encode().decode("unicode_escape")
d = tempfile.mkdtemp(prefix="mut")
try:
    shutil.copytree("/repo/elgas", d + "/elgas", ignore=shutil.ignore_patterns("__pycache__"))
    p = f"{d}/elgas/{file}"
    s = open(p).read()
    assert old in s, "text not found"
    n = int(sys.argv[5]) if len(sys.argv) > 5 else 1
    open(p, "w").write(s.replace(old, new, n) if n else s.replace(old, new))
    compile(open(p).read(), p, "exec")
    r = subprocess.run([sys.executable, "-m", "sa.check"] + props.split(","), cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                       env={**os.environ, "VERIF_REPO": d})
    print("exit", r.returncode)
finally:
    shutil.rmtree(d)
