#!/usr/bin/env python3
"""mkbug.py ID PROP PKG 'needs' 'breaks' TESTFILE < patch-script

Takes a directory with an edited copy of /repo (VERIF_BUGTREE) and makes
/verif/seeded/ID from the difference with /repo's HEAD, after confirming that
the change builds, that the stable tests pass and that the demonstration fails
with it and passes without."""
import json, os, shutil, subprocess, sys
ident, prop, pkg, needs, breaks, test = sys.argv[1:7]
tree = os.environ["VERIF_BUGTREE"]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = V + "/seeded/" + ident
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", tree, "diff"], stdout=subprocess.PIPE, check=True).stdout
if not diff:
    sys.exit("no change")
open(d + "/patch.diff", "wb").write(diff)
# only lines of the original repository
f = None
for l in diff.decode().splitlines():
    if l.startswith("--- a/"):
        f = subprocess.run(["git", "-C", tree, "show", "363ba41:" + l[6:]], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines()
    elif l.startswith("-") and l[1:].strip() and l[1:] not in f:
        sys.exit("not an original line: " + l)
if os.path.abspath(test) != d + "/demo_test.go":
    shutil.copy(test, d + "/demo_test.go")
gui = os.environ.get("VERIF_DEMO_GUI")
if gui:     # with a stand-in for the terminal beside it
    for n in ("api_common.go", "stub.go"):
        shutil.copy(V + "/harness/termbox/" + n, d + "/termbox_" + n.replace("api_common", "api"))
s = open(V + "/bin/demo_template%s.sh" % ("_gui" if gui else "")).read().replace("@PKG@", pkg)
open(d + "/demo.sh", "w").write(s)
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
R = "/repo"
assert not subprocess.run(["git", "-C", R, "status", "--porcelain"], stdout=subprocess.PIPE).stdout.strip(), "/repo not clean"
def demo():
    return subprocess.run(["bash", d + "/demo.sh"], cwd=R, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
p = demo()
if p.returncode != 0:
    sys.exit("demo fails on the unchanged tree:\n" + p.stdout[-2000:])
subprocess.run(["git", "-C", R, "apply", d + "/patch.diff"], check=True)
try:
    b = subprocess.run(["bash", "/opt/vp/build.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if b.returncode:
        sys.exit("does not build:\n" + b.stdout[-2000:])
    subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/mkbug.json"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    ok = set(json.load(open("/tmp/mkbug.json"))["passed"])
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    if not want <= ok:
        sys.exit("stable tests fail: %s" % (want - ok))
    p = demo()
    if p.returncode == 0:
        sys.exit("demo passes with the change")
    print(ident, "ok; demo says:", [l for l in p.stdout.splitlines() if "demo" in l.lower() or "panic" in l][:3])
    if len(sys.argv) > 7:
        q = subprocess.run(["python3", V + "/bin/check.py", prop], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print("CHECK", prop, "exit", q.returncode, q.stdout[-700:])
finally:
    subprocess.run(["git", "-C", R, "checkout", "--", "."], check=True)
