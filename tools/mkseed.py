#!/usr/bin/env python3
"""mkseed.py SPEC.py: plants the bugs described in SPEC.py (list SEEDS) in a scratch copy of /repo, confirms each
one (builds, stable tests pass, the demonstration passes without it and fails with it) and writes /verif/seeded/<id>/.
SEEDS entries: dict(id, property, edits=[(file, old, new)], pkg, test (Go source of the demo), needs, breaks)."""
import json, os, subprocess, sys, shutil, tempfile, re
spec = {}
exec(open(sys.argv[1]).read(), spec)
only = set(sys.argv[2:])
SC = "/tmp/seedrepo"
DEMO = '''#!/bin/bash
# Exit 0 when the property's demonstration passes, nonzero when it fails. Run with cwd /repo.
d="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 3
trap 'find "$t" -delete' EXIT
printf '{"Replace": {"%%s": "%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$d/demo_test.go.txt" > "$t/o.json"
go test -vet=off -overlay "$t/o.json" -count=1 -run '^TestZZDemo$' ./%(pkg)s
'''
def sh(c, cwd=SC, timeout=900):
    p = subprocess.run(["bash", "-c", c], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout
if not os.path.isdir(SC):
    subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
    subprocess.check_call(["cp", "-a", "/repo", SC])
sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq")
base = json.load(open("/opt/vp/BASELINE.json"))
names = set()
for k, v in (base.items() if isinstance(base, dict) else []):
    if isinstance(v, list): names |= set(map(str, v))
for s in spec["SEEDS"]:
    if only and s["id"] not in only: continue
    out = "/verif/seeded/" + s["id"]
    os.makedirs(out, exist_ok=True)
    open(out + "/demo_test.go.txt", "w").write(s["test"])
    open(out + "/demo.sh", "w").write(DEMO % {"pkg": s["pkg"]})
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    sh("git checkout -q -f . ")
    rc, o = sh(out + "/demo.sh")
    if rc != 0: print(s["id"], "DEMO FAILS UNPATCHED\n" + o[-1500:]); continue
    ok = True
    for f, old, new in s["edits"]:
        p = SC + "/" + f; t = open(p).read()
        if t.count(old) != 1: print(s["id"], "EDIT matches", t.count(old), f); ok = False; break
        open(p, "w").write(t.replace(old, new))
    if not ok: continue
    sh("gofmt -w " + " ".join(f for f, _, _ in s["edits"]))
    rc, o = sh("git diff"); open(out + "/patch.diff", "w").write(o)
    rc, o = sh(". /opt/vp/env.sh; go build ./... && go vet -vettool=/bin/true ./... >/dev/null 2>&1; go build ./...")
    if rc: print(s["id"], "NO BUILD\n" + o[-1500:]); continue
    rc, o = sh(out + "/demo.sh")
    if rc == 0: print(s["id"], "DEMO PASSES PATCHED"); continue
    tail = "\n".join(l for l in o.splitlines() if "Error" in l or "---" in l or "panic" in l or "expected" in l.lower())[:400]
    rc, t = sh(". /opt/vp/env.sh; go test -vet=off -skip '^TestParseCredentialWithResource$' ./... 2>&1 | grep -E '^(--- FAIL|panic)|build failed' | grep -vE 'TestIntegrationCred|TestVCSCred|TestMustIncludeHolderProperty|TestHolderMustBeEqualToIssuer|TestCanParseRDFC2022Presentation' | head")
    print(s["id"], "OK, demo:", tail.replace("\n", " | ")[:300], "TESTFAIL:" if t.strip() else "", t.strip()[:600])
sh("git checkout -q -f .")
