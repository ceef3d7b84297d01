#!/usr/bin/env python3
"""Plant bugs (development only, no check uses this).

  seed.py DIR/spec.py ID...   build /verif/seeded/ID from its spec, confirm that it counts
  seed.py --run ID...         run the check of the bug's property against /repo with the bug applied

A spec file defines bug(id, property, pkg, edits, needs, breaks, demo): edits is a
list of (file, old, new) and demo a Go test file with TestDemo… functions.
"""
import json, os, re, subprocess, sys, tempfile, shutil

REPO, VERIF, BASE = "/repo", "/verif", "6a362ac"
SEEDED = VERIF + "/seeded"
DEMO = """#!/bin/bash
# Runs the demonstration beside this file against the working tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%s/@PKG@/zz_demo_test.go": "%s/demo_test.go"}}' "$PWD" "$here" >"$tmp/overlay.json"
go test -overlay "$tmp/overlay.json" -count=1 -run '^TestDemo' -timeout 120s ./@PKG@
"""

def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(["bash", "-c", cmd], cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def base_lines_only(diff):
    """Every removed line must stem from the base commit."""
    f, line, removed = None, 0, 0
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
        elif l.startswith("@@"):
            line = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            rc, out = sh(f"git blame -s -l -L {line},{line} HEAD -- {f}", REPO)
            if BASE not in out:
                return f"line of our own: {f}:{line}: {l}"
            removed += 1
            line += 1
        elif l.startswith(" "):
            line += 1
    return None if removed else "no base line removed"

def build(spec, want):
    bugs = {}
    def bug(id, property, pkg, edits, needs, breaks, demo):
        bugs[id] = dict(property=property, pkg=pkg, edits=edits, needs=needs, breaks=breaks, demo=demo)
    g = {"bug": bug}
    exec(compile(open(spec).read(), spec, "exec"), g)
    for id, b in bugs.items():
        if want and id not in want:
            continue
        print(id, confirm(id, b), flush=True)

def confirm(id, b):
    tmp = tempfile.mkdtemp(prefix="seed")
    work = tmp + "/repo"
    try:
        sh(f"cp -a {REPO} {work}")
        for f, old, new in b["edits"]:
            s = open(f"{work}/{f}").read()
            if s.count(old) != 1:
                return f"FAILED: {f}: {s.count(old)} matches of {old!r}"
            open(f"{work}/{f}", "w").write(s.replace(old, new))
        sh("gofmt -w " + " ".join(sorted({f for f, _, _ in b["edits"]})), work)
        rc, diff = sh("git diff", work)
        err = base_lines_only(diff)
        if err:
            return "FAILED: " + err
        d = f"{SEEDED}/{id}"
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo_test.go", "w").write(b["demo"].lstrip("\n"))
        sh(f"gofmt -w {d}/demo_test.go")
        open(d + "/demo.sh", "w").write(DEMO.replace("@PKG@", b["pkg"]))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        # the tests of the bug
        sh("git checkout -- .", work)
        for i in range(2):
            rc, out = sh(f"bash {d}/demo.sh", work, timeout=300)
            if rc != 0:
                return "FAILED: demo on the unchanged tree\n" + out[-3000:]
        rc, out = sh(f"git apply {d}/patch.diff", work)
        if rc != 0:
            return "FAILED: apply " + out
        rc, out = sh(". /opt/vp/env.sh; go build ./... && go vet ./...", work)
        if rc != 0:
            return "FAILED: build " + out
        for i in range(2):
            rc, out = sh(f"bash {d}/demo.sh", work, timeout=300)
            if rc == 0:
                return "FAILED: demo passes with the bug"
        demo = out
        for i in range(2):
            rc, out = sh(". /opt/vp/env.sh; go test -vet=off -count=1 ./... && go test -vet=off -count=1 -p 1 -tags e2e -run ^TestE2E ./peers ./spop", work, timeout=300)
            if rc != 0:
                return "FAILED: tests " + out[-3000:]
        rc, out = sh(f"VERIF_REPO={work} ./run.sh {b['property']}", VERIF, {"VERIF_SEED": "1", "VERIF_TIER": "quick"})
        viol = [l for l in out.splitlines() if l.startswith("VIOLATION")]
        return ("caught" if rc == 1 and viol else f"MISSED rc={rc}") + f" [{b['property']}] " + "\n   demo: " + \
            " | ".join(l.strip() for l in demo.splitlines() if "demo_test.go" in l or "panic" in l)[:300] + "\n   check: " + " | ".join(viol)[:300] + \
            ("" if rc == 1 else out[-1500:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def run(ids):
    for id in ids:
        d = f"{SEEDED}/{id}"
        prop = json.load(open(d + "/meta.json"))["property"]
        rc, out = sh(f"git apply {d}/patch.diff", REPO)
        if rc:
            print(id, "does not apply", out); continue
        try:
            rc, out = sh(f"./run.sh {prop}", VERIF, {"VERIF_SEED": "1", "VERIF_TIER": "quick"})
        finally:
            sh("git checkout -- .", REPO)
        print(id, prop, "caught" if rc == 1 and f"VIOLATION property={prop}" in out else f"MISSED rc={rc}", flush=True)

if __name__ == "__main__":
    if sys.argv[1] == "--run":
        run(sys.argv[2:] or sorted(os.listdir(SEEDED)))
    else:
        build(sys.argv[1], sys.argv[2:])
