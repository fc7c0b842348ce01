#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N]

Builds what the property needs from /repo's working tree, drives its generated cases in
eight processes, and reports. Exit 0: held on everything explored. Exit 1 with a line
VIOLATION property=<id> replay=<path>: broken. Exit 2: the check itself could not answer.
"""
import fcntl, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
TARGET = os.path.join(HERE, "target")
SHARDS = 8
# by process time in one case; generous, the cases take microseconds
SHARD_WALL = {"quick": 600, "thorough": 10800}


class Broken(Exception):
    """the check cannot answer"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def env(**kw):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET, CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "VERIF_SUB"):
        e.pop(k, None)
    e.update({k: str(v) for k, v in kw.items()})
    return e


def cargo(crate, *args, target=None):
    """(ok, log)"""
    os.makedirs(TARGET, exist_ok=True)
    e = env()
    if target:
        e["CARGO_TARGET_DIR"] = target
    r = sh(["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(crate, "Cargo.toml"), *args], env=e)
    return r.returncode == 0, r.stdout


def repo_builds():
    """whether the plain crate builds with the features its users have by default"""
    r = sh(["cargo", "build", "--offline", "--quiet", "--manifest-path", "/repo/Cargo.toml"], env=env())
    return r.returncode == 0, r.stdout


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="vchk-%s-" % prop)
        self.replays = os.path.join(HERE, "replays")
        os.makedirs(self.replays, exist_ok=True)
        self.violations = []   # (replay path, message)
        self.known = []
        self.evals = 0
        self.distinct = 0
        self.nontrivial = 0
        self.samples = []
        self.labels = {}
        self.subs = {}
        self.extra = {}

    # -------------------------------------------------------- sharded runs
    def shards(self, exe, prop=None, scale=None, tag="", wall=None):
        """runs one property's cases on all shards and gathers what they found"""
        prop = prop or self.prop
        out = os.path.join(self.dir, "out" + tag)
        os.makedirs(out)
        e = env()
        if scale is not None:
            e["VERIF_SCALE"] = str(scale)
        ps = []
        for s in range(SHARDS):
            log = open(os.path.join(out, "log-%d" % s), "w")
            ps.append(subprocess.Popen([exe, "run", prop, self.tier, str(self.seed), str(s), str(SHARDS), out],
                                       stdout=log, stderr=log, env=e))
        end = time.time() + (wall or SHARD_WALL[self.tier])
        codes = []
        for p in ps:
            try:
                codes.append(p.wait(max(1, end - time.time())))
            except subprocess.TimeoutExpired:
                for q in ps:
                    q.kill()
                raise Broken("the run did not end within its time")
        best = None
        for s, c in enumerate(codes):
            f = os.path.join(out, "fail-%d" % s)
            if c == 1 and os.path.exists(f):
                n = len(open(f).read())
                if best is None or n < best[0]:
                    best = (n, f)
        if best:
            self.violation(exe, best[1], tag)
        else:
            for s, c in enumerate(codes):
                if c not in (0, 1):
                    self.crash(exe, prop, out, s, c, tag)
                    break
                if c == 1:
                    raise Broken("shard %d: status 1 without a failure: %s" % (s, open(os.path.join(out, "log-%d" % s)).read()[-2000:]))
        hashes = []
        for s in range(SHARDS):
            f = os.path.join(out, "stats-%d.json" % s)
            if not os.path.exists(f):
                continue
            d = json.load(open(f))
            self.evals += d["evals"]
            self.nontrivial += d["nontrivial"]
            self.samples += d["samples"]
            for k, v in d["labels"].items():
                self.labels[k] = self.labels.get(k, 0) + v
            for k, v in d["subs"].items():
                self.subs[k] = self.subs.get(k, 0) + v["evals"]
            hashes.append(os.path.join(out, "hashes-%d" % s))
        if hashes:
            self.distinct += int(sh([exe, "merge", *hashes]).stdout.strip())
        return out

    def violation(self, exe, fail, tag="", note=""):
        dst = os.path.join(self.replays, "%s%s-%d.txt" % (self.prop, tag, self.seed))
        shutil.copy(fail, dst)
        text = open(dst).read()
        msg = text.split("\nmessage ", 1)[-1]
        with open(dst, "a") as f:
            f.write("\nreplay with: %s replay %s\n%s" % (exe, dst, note))
        self.violations.append((dst, msg))

    def crash(self, exe, prop, out, s, code, tag):
        """a shard ended without reporting: find the case and make it small"""
        log = open(os.path.join(out, "log-%d" % s)).read()[-2000:]
        j = open(os.path.join(out, "journal-%d" % s), "rb").read()
        if len(j) < 16:
            raise Broken("shard %d ended with %s: %s" % (s, code, log))
        sub, idx = int.from_bytes(j[:8], "little"), int.from_bytes(j[8:16], "little")
        trace = os.path.join(out, "trace")
        r = sh([exe, "case", prop, str(sub), str(self.seed), str(idx), trace], env=env())
        name = r.stdout.splitlines()[0] if r.stdout else "?"
        if r.returncode == 0:
            raise Broken("shard %d ended with %s in case %s/%d, which passes alone: %s" % (s, code, name, idx, log))
        f = os.path.join(out, "crash")
        r2 = sh([exe, "shrink", prop, name, trace, f], env=env())
        if r2.returncode != 0 or not os.path.exists(f):
            raise Broken("shard %d ended with %s in case %s/%d (again %s), not reproduced from its choices: %s"
                         % (s, code, name, idx, r.returncode, r2.stdout[-500:]))
        self.violation(exe, f, tag)

    def violation_text(self, tag, text, msg):
        dst = os.path.join(self.replays, "%s%s-%d.txt" % (self.prop, tag, self.seed))
        with open(dst, "w") as f:
            f.write(text)
        self.violations.append((dst, msg))

    # -------------------------------------------------------- report
    def finish(self, rule, assumptions):
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        samples = self.samples
        if len(samples) > 24:
            step = len(samples) / 24.0
            samples = [samples[int(i * step)] for i in range(24)]
        cov = {
            "evaluations": self.evals,
            "distinct_nontrivial": self.distinct,
            "nontrivial": self.nontrivial,
            "rule": rule,
            "samples": samples,
            "classes": dict(sorted(self.labels.items())),
            "by_check": dict(sorted(self.subs.items())),
        }
        cov.update(self.extra)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": cov, "assumptions": assumptions,
            "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations),
        }
        p = os.path.join(HERE, "evidence", "%s.json" % self.prop)
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        os.replace(p + ".tmp", p)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for dst, msg in self.violations:
            print(msg[:1500])
            print("VIOLATION property=%s replay=%s" % (self.prop, dst))
        if not self.violations:
            print("%s held: %d evaluations, %d distinct non-trivial, %.1f s" % (self.prop, self.evals, self.distinct, time.time() - self.t0))
        shutil.rmtree(self.dir, ignore_errors=True)
        return 1 if self.violations else 0


def main():
    import plan
    a = sys.argv[1:]
    prop = a.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    while a:
        o = a.pop(0)
        if o == "--tier":
            tier = a.pop(0)
        elif o == "--seed":
            seed = int(a.pop(0))
        else:
            sys.exit("unknown option " + o)
    os.makedirs(TARGET, exist_ok=True)
    lock = open(os.path.join(TARGET, ".lock-check"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    run = Run(prop, tier, seed)
    try:
        plan.run(run)
        return run.finish(plan.rule(prop), plan.assumptions(prop))
    except Broken as e:
        print("ERROR property=%s %s" % (prop, e))
        shutil.rmtree(run.dir, ignore_errors=True)
        return 2


if __name__ == "__main__":
    sys.exit(main())
