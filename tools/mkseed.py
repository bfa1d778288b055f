#!/usr/bin/env python3
"""mkseed.py: helper to write /verif/seeded/<id>/ (patch.diff, demo.sh, demo.cpp, meta.json) from textual edits of /repo HEAD."""
import json, os, subprocess, tempfile, shutil
DEMO = '''#!/bin/bash
# Run in /repo after the build: exit 0 if the property holds.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
inc=""
for m in LitlTypes LitlContainer LitlRaster LitlTransforms LitlIo LitlRun; do inc="$inc -I$PWD/$m"; done
g++-9 -std=c++14 -O1 -w -pthread @FLAGS@ $inc -I/usr/include/eigen3 "$here/demo.cpp" @SRC@ -o "$d/demo" @LIBS@ || exit 4
cd "$d" && timeout 60 ./demo
'''
def seed(id, prop, edits, needs, breaks, demo, libs="", flags="", src=""):
    out = "/verif/seeded/" + id
    t = tempfile.mkdtemp()
    subprocess.run("git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q . && git add -A && git -c user.email=a@b -c user.name=a commit -qm x" % (t, t), shell=True, check=True)
    for f, old, new in edits:
        p = os.path.join(t, f)
        s = open(p).read()
        assert s.count(old) >= 1, (id, f, old)
        assert s.count(old) == 1, (id, f, "ambiguous", s.count(old))
        open(p, "w").write(s.replace(old, new, 1))
    diff = subprocess.run(["git", "diff"], cwd=t, stdout=subprocess.PIPE, text=True).stdout
    # removed lines must be original ones
    shutil.rmtree(t)
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/demo.sh", "w").write(DEMO.replace("@FLAGS@", flags).replace("@LIBS@", libs).replace("@SRC@", src))
    os.chmod(out + "/demo.sh", 0o755)
    open(out + "/demo.cpp", "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + "/meta.json", "w"), indent=1)
    mine = []
    for l in diff.splitlines():
        if l.startswith("-") and not l.startswith("---") and l[1:].strip():
            r = subprocess.run(["git", "-C", "/repo", "grep", "-qF", "--", l[1:], "661b734"], stdout=subprocess.DEVNULL)
            if r.returncode:
                mine.append(l)
    print(id, "written", "LINES NOT IN THE ORIGINAL: %s" % mine if mine else "")
