#!/usr/bin/env python3
"""plant.py SPEC.py [id ...]: makes /verif/seeded/<id>/ from a list BUGS of dicts
(id, prop, edits [(file, old, new)], needs, breaks, demo), and validates each one in a
scratch copy of /repo: applies, touches original lines only, builds, passes the stable
tests, demo fails with it and passes without; then runs the property's check against it."""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
REPO = "/repo"
SEED = "/verif/seeded"
DEMO = r'''#!/bin/bash
# run with cwd = the repository; builds main.rs against it in a scratch folder
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d)" || exit 99
mkdir "$d/src" && cp "$here/main.rs" "$d/src/main.rs" || exit 99
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
nanoserde = { path = "$repo"%FEAT% }
[workspace]
[profile.dev]
debug = 0
EOF
cd "$d" && CARGO_TARGET_DIR="$d/target" cargo run --offline --quiet
s=$?
cd / && rm -rf "$d"
exit $s
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def blame_ok(patch):
    """every removed or neighbouring changed line must be of the original commit"""
    cur = None
    bad = []
    for l in patch.split("\n"):
        m = re.match(r"--- a/(.*)", l)
        if m:
            f = m.group(1)
            b = sh(["git", "-C", REPO, "blame", "-s", f]).stdout.split("\n")
        m = re.match(r"@@ -(\d+)", l)
        if m:
            n = int(m.group(1))
            continue
        if l.startswith("---") or l.startswith("+++"):
            continue
        if l.startswith("-"):
            if not b[n - 1].startswith("^"):
                bad.append((f, n, b[n - 1]))
            n += 1
        elif l.startswith(" "):
            n += 1
    return bad


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = set(sys.argv[2:])
    check = "--check" in only
    only.discard("--check")
    for b in bugs:
        if only and b["id"] not in only:
            continue
        d = os.path.join(SEED, b["id"])
        scratch = tempfile.mkdtemp(prefix="plant-")
        wt = os.path.join(scratch, "repo")
        try:
            subprocess.run(["cp", "-a", REPO, wt], check=True)
            ok = True
            for f, old, new in b["edits"]:
                p = os.path.join(wt, f)
                s = open(p).read()
                nth = None
                if isinstance(old, tuple):
                    old, nth = old
                c = s.count(old)
                if nth is None:
                    if c != 1:
                        print(b["id"], "BAD EDIT: count", c, repr(old[:60])); ok = False; break
                    s = s.replace(old, new)
                else:
                    parts = s.split(old)
                    s = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
                open(p, "w").write(s)
            if not ok:
                continue
            patch = subprocess.run(["git", "-C", wt, "diff"], stdout=subprocess.PIPE, text=True).stdout
            bad = blame_ok(patch)
            if bad:
                print(b["id"], "NOT ORIGINAL", bad[:3])
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            open(os.path.join(d, "patch.diff"), "w").write(patch)
            open(os.path.join(d, "main.rs"), "w").write(b["demo"].lstrip("\n"))
            open(os.path.join(d, "demo.sh"), "w").write(b.get("sh", DEMO).replace("%FEAT%", b.get("feat", "")))
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            res = []
            r = sh(["cargo", "test", "--workspace", "--offline", "--quiet"], cwd=wt)
            if r.returncode:
                res.append("TESTS FAIL (std)\n" + "\n".join([l for l in r.stdout.split("\n") if "panicked" in l or "FAILED" in l or l.startswith("error")][:6]))
            r = sh(["cargo", "test", "--workspace", "--offline", "--quiet", "--no-default-features", "--features", "binary,json,ron,toml"], cwd=wt)
            if r.returncode:
                res.append("TESTS FAIL (no std)\n" + r.stdout[-600:])
            demo = os.path.join(d, "demo.sh")
            r = sh(["bash", demo], cwd=wt)
            if r.returncode == 0:
                res.append("DEMO PASSES WITH THE BUG")
            elif "error" in r.stdout and "could not compile" in r.stdout and not b.get("compile"):
                res.append("DEMO DOES NOT COMPILE\n" + r.stdout[-1500:])
            r = sh(["bash", demo], cwd=REPO)
            if r.returncode:
                res.append("DEMO FAILS ON CLEAN\n" + r.stdout[-1500:])
            print(b["id"], "valid" if not res else "; ".join(res), flush=True)
            if res:
                open(os.path.join(d, "INVALID"), "w").write("\n".join(res))
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        if check and not res:
            caught(b["id"], b["prop"])


def caught(i, prop):
    p = os.path.join(SEED, i, "patch.diff")
    r = sh(["git", "-C", REPO, "apply", p])
    if r.returncode:
        print(i, "does not apply", r.stdout); return
    try:
        r = sh(["python3", "/verif/check.py", prop])
    finally:
        sh(["git", "-C", REPO, "checkout", "--", "."])
    last = r.stdout.strip().split("\n")
    print("   ", i, prop, "exit", r.returncode, "CAUGHT" if r.returncode == 1 and "VIOLATION property=" + prop in r.stdout else "MISSED", last[-1][:160], flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "catch":
        for i in sys.argv[2:]:
            caught(i, json.load(open(os.path.join(SEED, i, "meta.json")))["property"])
    else:
        main()
