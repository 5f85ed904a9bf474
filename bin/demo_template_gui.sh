#!/bin/bash
# Runs demo_test.go (beside this file) as a test of package PKG of /repo's tree.
# Exit 0: the property holds in the demonstration.  Everything it writes is in a
# scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
PKG=@PKG@
w=$(mktemp -d)
trap 'chmod -R u+rwx "$w" 2>/dev/null; rm -rf "$w"' EXIT
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on
# a terminal that only the demonstration types on, and a go.work which has it
mkdir "$w/termbox"
cp "$here/termbox_api.go" "$here/termbox_stub.go" "$w/termbox/"
printf 'module github.com/nsf/termbox-go\n\ngo 1.15\n\nrequire github.com/mattn/go-runewidth v0.0.9\n' > "$w/termbox/go.mod"
sed "s|^replace (|replace (\n\tgithub.com/nsf/termbox-go => $w/termbox|" /opt/vp/gomod/go.work > "$w/go.work"
cp /opt/vp/gomod/go.work.sum "$w/go.work.sum" 2>/dev/null
export GOWORK=$w/go.work
mkdir "$w/sardir"
export SARDIR=$w/sardir DEMO_DIR=$w DEMO_CONF=/repo/saratoga/saratoga.json
python3 - "$w" "$here" "$PKG" <<'P'
import json, os, sys
w, here, pkg = sys.argv[1:4]
o = {}
if os.path.exists("/opt/vp/gomod/overlay.json"):
    o = json.load(open("/opt/vp/gomod/overlay.json"))["Replace"]
k = 0
for root, dirs, files in os.walk("/repo"):
    dirs[:] = [d for d in dirs if not d.startswith(".")]
    for f in files:
        if f.endswith(".go"):
            p = os.path.join(root, f)
            s = open(p, encoding="utf-8", errors="surrogateescape").read()
            if "syscall.SO_REUSEPORT" in s:      # not on linux/amd64: its number
                k += 1
                q = "%s/r%d.go" % (w, k)
                open(q, "w", encoding="utf-8", errors="surrogateescape").write(s.replace("syscall.SO_REUSEPORT", "(syscall.SO_REUSEADDR*0 + 0xf)"))
                o[p] = q
o["/repo/%s/zz_demo_test.go" % pkg] = here + "/demo_test.go"
json.dump({"Replace": o}, open(w + "/overlay.json", "w"))
P
export GOFLAGS=-overlay=$w/overlay.json
cd /repo || exit 2
go test -vet=off -count=1 -timeout 120s -run '^TestDemo$' github.com/charlesetsmith/saratoga/$PKG
