#!/usr/bin/env python3
"""Mutation test of the checks: small changes to the library, one at a time, in private copies.

usage: mutate.py OUT.jsonl [--seed N] [--workers K] [--hours H] [--files F,F] [--only PROP,PROP]

A mutant that compiles and passes the library's own tests is given to an eighth of every
property's quick cases. Each line of OUT says what was changed and who noticed; `survived`
is for a human to look at: many such changes break no property (they are equivalent, or
change what nothing promises). Nothing here is used by a check.
"""
import json, os, random, re, resource, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = "/tmp/mutate"
FILES = ["src/serde_json.rs", "src/serde_ron.rs", "src/serde_bin.rs", "src/toml.rs", "src/lib.rs",
         "derive/src/serde_json.rs", "derive/src/serde_ron.rs", "derive/src/serde_bin.rs",
         "derive/src/shared.rs", "derive/src/parse.rs", "derive/src/lib.rs"]
PROPS = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C18 C19 C21 C22 C23 C24".split()
sys.path.insert(0, os.path.join(HERE, "tools"))
import plan

# where to look first
FIRST = {
    "serde_json.rs": "C04 C05 C06 C07 C08 C09 C10 C19 C24 C21 C23 C18".split(),
    "serde_ron.rs": "C11 C12 C13 C14 C08 C19 C24 C21 C23 C18".split(),
    "serde_bin.rs": "C01 C02 C03 C22 C21 C18 C19".split(),
    "toml.rs": "C15 C16 C19".split(),
}
RULES = [
    (r" == ", [" != "]), (r" != ", [" == "]),
    (r" < ", [" <= "]), (r" > ", [" >= "]), (r" <= ", [" < "]), (r" >= ", [" > "]),
    (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r" \+ 1\b", [" + 2", ""]), (r" - 1\b", [""]), (r" \+= 1\b", [" += 2"]), (r" -= 1\b", [" -= 2"]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"is_some\(\)", ["is_none()"]), (r"is_none\(\)", ["is_some()"]),
    (r"is_empty\(\)", ["is_empty() == false"]),
    (r"\bif (?!let )([^{}]*[^{} ]) \{", [r"if !(\1) {", r"if (\1) && false {", r"if (\1) || true {"]),
    (r"\.saturating_sub\((\*?\w+)\)", [r".wrapping_sub(\1)"]),
    (r"\b(\d+)\b", ["N+1", "N-1"]),
    (r"0x([0-9a-f]+)\b", ["X+1", "X-1"]),
    (r"'(\\?[^'])'", ["C"]),
    (r"\bu64\b", ["u32"]), (r"\bi64\b", ["i32"]), (r"\bf64\b", ["f32"]), (r"u32::MAX", ["u16::MAX"]), (r"u64::MAX", ["u32::MAX"]),
    (r"\.rev\(\)", [""]), (r"push_back", ["push_front"]),
    (r"\?;", [".ok();"]),
    (r"\bany\(", ["all("]), (r"\bfind_map\(", ["filter_map("]),
    (r"unwrap_or\(", ["UNWRAP_OR"]),
]


def mutants(path, text):
    lines = text.split("\n")
    stop = next((i for i, l in enumerate(lines) if l.startswith("#[cfg(test)]")), len(lines))
    for n, l in enumerate(lines[:stop]):
        s = l.strip()
        if not s or s.startswith(("//", "#[", "#!", "use ", "pub use", "macro_rules", "impl", "where", "pub fn", "fn ", "}")):
            continue
        if re.search(r"err_\w+\(|unimplemented!|panic!|unreachable!|\.expect\(|indent\(|write!\(f|msg:|with_capacity|_length", s):
            continue  # words of errors, white space between elements
        code = l.split(" // ")[0]
        for pat, reps in RULES:
            for m in re.finditer(pat, code):
                for r in reps:
                    if r in ("N+1", "N-1"):
                        if int(m.group(1)) == 0 and r == "N-1":
                            continue
                        new = str(int(m.group(1)) + (1 if r == "N+1" else -1))
                    elif r in ("X+1", "X-1"):
                        new = "0x%x" % max(0, int(m.group(1), 16) + (1 if r == "X+1" else -1))
                    elif r == "C":
                        new = "'\\u{1}'"
                    elif r == "UNWRAP_OR":
                        continue
                    else:
                        new = m.expand(r)
                    yield n, l, l[:m.start()] + new + l[m.end():]
        # whole statements and arms
        if s.endswith(";") and not s.startswith(("let ", "return", "break", "pub ", "const")) and s.count("(") == s.count(")"):
            yield n, l, ""
        if s in ("break;", "continue;", "return;"):
            yield n, l, ""
        if re.match(r".*=> .*,$", s) and s.count("(") == s.count(")") and s.count("{") == s.count("}"):
            yield n, l, ""
        if re.match(r"\|? ?[\w:]+(\(_\))?( \{ \.\. \})?$", s) and s.startswith("|"):
            yield n, l, ""


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def sh(cmd, cwd, timeout, env):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, preexec_fn=limit, text=True, errors="replace")
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return -9, "timeout"


class Worker:
    def __init__(self, k, repo):
        self.d = os.path.join(ROOT, str(k))
        self.repo = os.path.join(self.d, "repo")
        self.verif = os.path.join(self.d, "verif")
        shutil.rmtree(self.d, ignore_errors=True)
        os.makedirs(self.verif)
        subprocess.check_call(["git", "clone", "-q", repo, self.repo])
        for d in ("vcore", "zoo"):
            shutil.copytree(os.path.join(HERE, d), os.path.join(self.verif, d), ignore=shutil.ignore_patterns("target"))
            p = os.path.join(self.verif, d, "Cargo.toml")
            t = re.sub(r'path = "/[^"]*repo"', 'path = "%s"' % self.repo, open(p).read())
            if d == "vcore":
                t = t.replace("opt-level = 1", "opt-level = 0")  # compiling takes longer than running here
            open(p, "w").write(t)
        self.env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never", CARGO_BUILD_JOBS="2", VERIF_CASE_MS="5000")
        self.env.pop("VERIF_SUB", None)
        self.tt = dict(self.env, CARGO_TARGET_DIR=os.path.join(self.d, "tt"))
        self.tv = dict(self.env, CARGO_TARGET_DIR=os.path.join(self.d, "tv"))

    def props(self, exe, props):
        for p in props:
            out = os.path.join(self.d, "out")
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            e = dict(self.env, VERIF_SCALE=str(max(1, plan.SCALE[p] // 8)))
            ps = [subprocess.Popen([exe, "run", p, "quick", "1", str(s), "2", out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=e, preexec_fn=limit) for s in range(2)]
            end = time.time() + 240
            bad = False
            for q in ps:
                try:
                    bad |= q.wait(max(1, end - time.time())) != 0
                except subprocess.TimeoutExpired:
                    bad = True
            for q in ps:
                q.kill()
                q.wait()
            if bad:
                return p
        return None

    def judge(self, props, f=""):
        first = [p for p in FIRST.get(os.path.basename(f), []) if p in props] if f else []
        props = first + [p for p in props if p not in first]
        code, out = sh(["cargo", "test", "--offline", "--workspace", "--quiet", "--tests"], self.repo, 120, self.tt)
        if code != 0:
            return "nocompile" if "could not compile" in out else "tests"
        if f.startswith("src/"):
            code, out = sh(["cargo", "build", "--offline", "--quiet", "--manifest-path", self.verif + "/vcore/Cargo.toml"], self.d, 400, self.tv)
            if code == 0:
                r = self.props(os.path.join(self.d, "tv", "debug", "vstd"), first)
                if r:
                    return r
        code, out = sh(["cargo", "build", "--offline", "--quiet", "--manifest-path", self.verif + "/zoo/Cargo.toml"], self.d, 400, self.tv)
        if code != 0:
            return "C17 (zoo does not build)"
        return self.props(os.path.join(self.d, "tv", "debug", "zoo"), props) or "survived"


def main():
    a = sys.argv[1:]
    out = a.pop(0)
    o = {"--seed": "1", "--workers": "4", "--hours": "2", "--files": ",".join(FILES), "--only": ",".join(PROPS), "--repo": "/repo"}
    while a:
        k = a.pop(0)
        o[k] = a.pop(0)
    repo = o["--repo"]
    todo = []
    for f in o["--files"].split(","):
        text = open(os.path.join(repo, f)).read()
        seen = set()
        for n, old, new in mutants(f, text):
            if (n, new) not in seen:
                seen.add((n, new))
                todo.append((f, n, old, new))
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["new"]))
    todo = [t for t in todo if (t[0], t[1] + 1, t[3].strip()) not in done]
    random.Random(int(o["--seed"])).shuffle(todo)
    print(len(todo), "mutants", flush=True)
    lock = threading.Lock()
    end = time.time() + float(o["--hours"]) * 3600

    def work(k):
        w = Worker(k, repo)
        r = w.judge(o["--only"].split(","))
        if r != "survived":
            print("worker", k, "unchanged tree:", r, flush=True)
            return
        while time.time() < end:
            with lock:
                if not todo:
                    return
                f, n, old, new = todo.pop()
            p = os.path.join(w.repo, f)
            text = open(p).read()
            lines = text.split("\n")
            assert lines[n] == old
            lines[n] = new
            open(p, "w").write("\n".join(lines))
            t0 = time.time()
            try:
                r = w.judge(o["--only"].split(","), f)
            finally:
                open(p, "w").write(text)
            with lock:
                with open(out, "a") as g:
                    g.write(json.dumps({"file": f, "line": n + 1, "old": old.strip(), "new": new.strip(), "by": r, "s": round(time.time() - t0, 1)}) + "\n")

    ts = [threading.Thread(target=work, args=(k,)) for k in range(int(o["--workers"]))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


if __name__ == "__main__":
    main()
