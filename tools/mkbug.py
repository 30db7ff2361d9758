#!/usr/bin/env python3
"""mkbug.py <spec.py>...: writes /verif/seeded/<id>/ from a small description.
The description defines ID, PROP, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (Go source)."""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in sys.argv[1:]:
    g = {}
    exec(open(f).read(), g)
    w = tempfile.mkdtemp(prefix="wwv-mkbug-")
    subprocess.check_call(["cp", "-a", "/repo", w + "/r"])
    r = w + "/r"
    own = 0
    for path, old, new in g["EDITS"]:
        p = os.path.join(r, path)
        s = open(p).read()
        if s.count(old) != 1:
            print("%s: %d matches in %s of %r" % (g["ID"], s.count(old), path, old))
            sys.exit(1)
        open(p, "w").write(s.replace(old, new))
    subprocess.call(["gofmt", "-l"] + [os.path.join(r, p) for p, _, _ in g["EDITS"]])
    d = subprocess.check_output(["git", "-C", r, "diff"]).decode()
    # which removed lines are the original repository's?
    orig = False
    for path in set(p for p, _, _ in g["EDITS"]):
        base = subprocess.run(["git", "-C", "/repo", "show", "ca299a0:" + path], stdout=subprocess.PIPE).stdout.decode().splitlines()
        bl = subprocess.check_output(["git", "-C", "/repo", "blame", "-s", path]).decode().splitlines()
        cur = open("/repo/" + path).read().splitlines()
        df = subprocess.run(["git", "-C", r, "diff", "-U0", path], stdout=subprocess.PIPE).stdout.decode()
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", df, re.M):
            a, n = int(m.group(1)), int(m.group(2) or 1)
            for i in range(a, a + n):
                if bl[i - 1].startswith("^ca299a0"):
                    orig = True
                else:
                    print("   note: changes a line of a fix:", path, i, cur[i - 1])
    if not orig:
        print("   WARNING: no original line changed or removed")
    o = os.path.join(V, "seeded", g["ID"])
    shutil.rmtree(o, ignore_errors=True)
    os.makedirs(o)
    open(o + "/patch.diff", "w").write(d)
    json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(o + "/meta.json", "w"), indent=1)
    shutil.copy(V + "/tools/demo/demo.sh", o + "/demo.sh")
    if g.get("LIB", True):
        shutil.copy(V + "/tools/demo/lib.go", o + "/lib.go")
    open(o + "/main.go", "w").write(g["DEMO"].lstrip())
    os.chmod(o + "/demo.sh", 0o755)
    shutil.rmtree(w)
    print("wrote", g["ID"])
