#!/usr/bin/env python3
"""Build /verif/seeded/<id> from a definition and validate it in a scratch copy.

usage: mkseed.py DEFS.py [id ...]
DEFS.py defines SEEDS, a list of dicts: id, property, pkg, edits [(file, old, new)],
test (Go test source with func TestZZDemo), needs, breaks.
"""
import json, os, re, shutil, subprocess, sys, tempfile

ENV = ". /opt/vp/env.sh; export GOSUMDB=off; "
DEMO = '''#!/bin/bash
# Runs the demonstration test of this folder inside package %(pkg)s.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOSUMDB=off
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo.go.txt"}}' "$PWD" "$here" > "$T/overlay.json"
timeout 120 go test -count=1 -timeout 60s -overlay "$T/overlay.json" -run '^TestZZDemo$' ./%(pkg)s
'''

def sh(cmd, cwd):
    return subprocess.run(["bash", "-c", ENV + cmd], cwd=cwd, capture_output=True, text=True)

def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = set(sys.argv[2:])
    for s in ns["SEEDS"]:
        if want and s["id"] not in want:
            continue
        w = tempfile.mkdtemp(prefix="seed-")
        try:
            subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
            r = w + "/repo"
            sh("git checkout -q -- . && git clean -fdq", r)
            d = "/verif/seeded/" + s["id"]
            os.makedirs(d, exist_ok=True)
            open(d + "/demo.sh", "w").write(DEMO % s)
            os.chmod(d + "/demo.sh", 0o755)
            open(d + "/demo.go.txt", "w").write(s["test"])
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(d + "/meta.json", "w"), indent=1)
            bad = ""
            p = sh("bash %s/demo.sh" % d, r)
            if p.returncode != 0:
                bad = "demo fails on the unchanged tree:\n" + p.stdout[-1500:] + p.stderr[-1500:]
            for f, old, new in s["edits"]:
                src = open(r + "/" + f).read()
                if src.count(old) != 1:
                    bad = "edit does not match once (%d): %s" % (src.count(old), f)
                    break
                open(r + "/" + f, "w").write(src.replace(old, new))
            diff = sh("git diff", r).stdout
            open(d + "/patch.diff", "w").write(diff)
            if not bad:
                p = sh("go build ./... && go vet ./... >/dev/null 2>&1; go build ./... && go test -count=1 ./...", r)
                # one unstable test exists upstream; compare with the baseline
                fails = set(re.findall(r"--- FAIL: (\S+)", p.stdout))
                if "build failed" in p.stdout + p.stderr or fails:
                    bad = "tests: %s %s" % (fails, p.stdout[-800:] + p.stderr[-800:])
            if not bad:
                p = sh("bash %s/demo.sh" % d, r)
                if p.returncode == 0:
                    bad = "demo passes with the patch"
                elif "build failed" in p.stdout:
                    bad = "demo does not build with patch " + p.stdout
            print(s["id"], "OK" if not bad else "BAD " + bad)
        finally:
            shutil.rmtree(w)

main()
