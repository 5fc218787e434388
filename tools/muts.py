"""muts.py FILE: try many one-off changes of a copy of /repo.  FILE holds a Python list of (property, file, old, new)
or (property, file, old, new, count).  Prints which are caught."""
import os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for m in eval(open(sys.argv[1]).read()):
    props, f, old, new = m[:4]
    d = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    os.rmdir(d)
    shutil.copytree("/repo", d, symlinks=True)
    p = os.path.join(d, "procmon_parser", f)
    s = open(p).read()
    if old not in s:
        print("NO-MATCH", m, flush=True)
        shutil.rmtree(d)
        continue
    open(p, "w").write(s.replace(old, new, m[4] if len(m) > 4 else 1))
    for prop in props.split():
        r = subprocess.run([here + "/check.sh", prop, os.environ.get("TIER", "quick")], env=dict(os.environ, VERIF_TARGET=d),
                           capture_output=True, text=True)
        print("caught " if r.returncode == 1 else "MISSED " if r.returncode == 0 else "RC%d " % r.returncode, prop, f,
              repr(old)[:60], "->", repr(new)[:90], flush=True)
    shutil.rmtree(d)
