"""What each property's check builds and runs, and how its evidence is to be read."""
import concurrent.futures, itertools, os, re, shutil, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.path.join(HERE, "target")
VCORE = os.path.join(HERE, "vcore")
ZOO = os.path.join(HERE, "zoo")
CFG = os.path.join(HERE, "cfgprobe")
WORK = os.path.join(HERE, "work")

# properties decided on the library's own types alone
STD = {"C08", "C15", "C16", "C21", "C23", "C24"}
# times the basic number of cases, per tier
SCALE = {"C01": 60, "C02": 60, "C03": 50, "C04": 60, "C05": 60, "C06": 30, "C07": 12, "C08": 2, "C09": 16, "C10": 60, "C11": 60, "C12": 30,
         "C13": 16, "C14": 24, "C15": 24, "C16": 12, "C17": 4, "C18": 24, "C19": 12, "C21": 30, "C22": 12, "C23": 3, "C24": 10}
TSCALE = {"C01": 10, "C02": 10, "C03": 8, "C04": 10, "C05": 10, "C06": 5, "C07": 3, "C08": 1, "C09": 4, "C10": 10, "C11": 10, "C12": 5,
          "C13": 3, "C14": 5, "C15": 5, "C16": 3, "C17": 1, "C18": 6, "C19": 4, "C21": 10, "C22": 4, "C23": 1, "C24": 3}
# generated programs per tier: (programs, types in each)
PROGRAMS = {"quick": (6, 40), "thorough": (24, 120)}
CFG_CASES = {"quick": 60000, "thorough": 1000000}


def check():
    import __main__
    return __main__


def scale(run, more=1):
    return (SCALE if run.tier == "quick" else TSCALE).get(run.prop, 1) * more


def std_exe(run):
    m = check()
    ok, log = m.cargo(VCORE)
    if not ok:
        raise m.Broken("the harness does not build against /repo:\n" + log[-4000:])
    return os.path.join(TARGET, "debug", "vstd")


def zoo_exe(run):
    """the program with the derived types; None and the compiler's words if only they do not build"""
    ok, log = check().cargo(ZOO)
    if ok:
        return os.path.join(TARGET, "debug", "zoo"), ""
    std_exe(run)
    return None, log


DEFINES = re.compile(r"^(?:pub(?:\([^)]*\))? +|\$\w+ )?(?:struct|enum|type|trait|fn|const|macro_rules!) +(?:r#)?(\w+)", re.M)


def partial_zoo(run, log):
    """The program with those derived types that still compile, or None: definitions the
    compiler complains about are taken out, with all that mention them. (That they do not
    compile is C17's to report; what the others do is still this property's.)"""
    m = check()
    crate = os.path.join(WORK, "zoo")
    shutil.rmtree(crate, ignore_errors=True)
    shutil.copytree(ZOO, crate, ignore=shutil.ignore_patterns("target"))
    toml = os.path.join(crate, "Cargo.toml")
    text = open(toml).read()
    with open(toml, "w") as f:
        f.write(text.replace("../vcore", VCORE))
    mods = ["gen", "hand", "mat"]
    paras, gone, unlisted, out = {}, {}, {}, set()
    for x in mods:
        lines = open(os.path.join(crate, "src", x + ".rs")).read().split("\n")
        ps, cur = [], []
        for i, l in enumerate(lines + [""]):
            if l.strip():
                cur.append(i)
            elif cur:
                ps.append((cur[0], cur[-1] + 1))
                cur = []
        paras[x], gone[x] = [(a, b, "\n".join(lines[a:b])) for a, b in ps], set()
        unlisted[x] = set()
    for _ in range(12):
        news, before = set(), sum(map(len, unlisted.values()))
        for b in re.split(r"\n(?=error|warning)", log):
            w = re.search(r"--> \S*?src/(gen|hand|mat)\.rs:(\d+):", b) if b.startswith("error") else None
            if w:
                x, n = w.group(1), int(w.group(2)) - 1
                k = next((k for k, (a, z, _) in enumerate(paras[x]) if a <= n < z), None)
                if k == 0:
                    # what the others rest on
                    out.add(x)
                elif k == len(paras[x]) - 1:
                    unlisted[x].add(n)
                elif k is not None and k not in gone[x]:
                    news.add((x, k))
        if not news and not (out & set(mods)) and before == sum(map(len, unlisted.values())):
            return None
        mods = [x for x in mods if x not in out]
        while news:
            for x, k in news:
                gone[x].add(k)
            more = set()
            for x in {x for x, _ in news}:
                names = set(n for k in gone[x] for n in DEFINES.findall(paras[x][k][2]))
                word = re.compile(r"\b(?:%s)\b" % "|".join(sorted(names) or ["-"]))
                more |= {(x, k) for k in range(1, len(paras[x]) - 1) if k not in gone[x] and word.search(paras[x][k][2])}
            news = more
        for x in mods:
            names = set(n for k in gone[x] for n in DEFINES.findall(paras[x][k][2]))
            word = re.compile(r"\b(?:%s)\b" % "|".join(sorted(names) or ["-"]))
            lines = open(os.path.join(ZOO, "src", x + ".rs")).read().split("\n")
            for k in gone[x]:
                a, b, _ = paras[x][k]
                lines[a:b] = [""] * (b - a)
            a, b, _ = paras[x][-1]
            # (places stay, so that the compiler's line numbers keep their meaning)
            lines[a:b] = ["" if l.strip().startswith("entry!") and (i in unlisted[x] or word.search(l)) else l for i, l in enumerate(lines[a:b], a)]
            with open(os.path.join(crate, "src", x + ".rs"), "w") as f:
                f.write("\n".join(lines))
        with open(os.path.join(crate, "src", "main.rs"), "w") as f:
            f.write("".join("mod %s;\n" % x for x in mods))
            f.write("fn main() -> std::process::ExitCode {\n    let mut v = vcore::stdtypes::all();\n")
            f.write("".join("    v.extend(%s::reg());\n" % x for x in mods))
            f.write("    vcore::cli::main(Box::leak(v.into_boxed_slice()))\n}\n")
        ok, log = m.cargo(crate)
        if ok:
            run.extra["note"] = "left out, since they do not compile: %d definitions and what uses them%s" % (
                sum(map(len, gone.values())), "".join(", all of " + x for x in sorted(out)))
            return os.path.join(TARGET, "debug", "zoo")
    return None


def run(run):
    if run.prop == "C20":
        return configurations(run)
    if run.prop in STD:
        exe = std_exe(run)
        run.shards(exe, scale=scale(run))
    elif run.prop == "C17":
        return derive(run)
    else:
        exe, log = zoo_exe(run)
        if exe is None:
            # a definition that no longer compiles is C17's to report
            exe = partial_zoo(run, log)
        if exe is None:
            exe = std_exe(run)
            run.extra["note"] = "the derived types do not build; decided on the library's own types: " + log[-600:]
        run.shards(exe, scale=scale(run))
    findings(run, exe)


# ---------------------------------------------------------------- known findings
def known():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\w+) probe=(\S+) (.*)", l.strip())
            if m:
                out.append(m.groups())
    return out


def findings(run, exe):
    """the listed defects that are still there"""
    for prop, probe, what in known():
        if prop != run.prop:
            continue
        r = subprocess.run([exe, "probe", probe], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
        if r.returncode != 0:
            run.known.append(what)


# ---------------------------------------------------------------- generated definitions
MAIN = """#[path = "../gen%d.rs"]
mod gen;
fn main() -> std::process::ExitCode { vcore::cli::main(Box::leak(gen::reg().into_boxed_slice())) }
"""
PCARGO = """[package]
name = "prog"
version = "0.1.0"
edition = "2021"
[dependencies]
vcore = { path = "%s" }
nanoserde = { path = "/repo" }
[workspace]
[profile.dev]
opt-level = 0
debug = 0
debug-assertions = true
overflow-checks = true
incremental = false
[profile.dev.package."*"]
opt-level = 1
"""


def blame(src, log):
    """the definition the compiler's first complaint is about, and the complaint"""
    lines = open(src).read().split("\n")
    base = os.path.basename(src)
    blocks = re.split(r"\n(?=error)", log)
    for b in blocks:
        if not b.startswith("error"):
            continue
        m = re.search(r"--> \S*%s:(\d+):" % re.escape(base), b)
        if m:
            i = min(int(m.group(1)) - 1, len(lines) - 1)
            lo = i
            while lo > 0 and lines[lo].strip():
                lo -= 1
            hi = i
            while hi < len(lines) - 1 and lines[hi].strip():
                hi += 1
            return "\n".join(lines[lo:hi]), b
    return "", log[:3000]


def uncompiled(run, tag, src, log):
    code, what = blame(src, log)
    run.evals += 1
    run.violation_text(tag, "property C17\nthis definition does not compile (from %s):\n%s\n\nthe compiler says:\n%s\n" % (src, code, what),
                       "a definition in the supported language does not compile: %s" % what[:1200])


def derive(run):
    m = check()
    exe, log = zoo_exe(run)
    if exe is None:
        src = "gen.rs"
        if "gen.rs:" not in log and "hand.rs:" in log:
            src = "hand.rs"
        uncompiled(run, "-zoo", os.path.join(ZOO, "src", src), log)
        return
    run.shards(exe, scale=scale(run), tag="-zoo")
    if run.violations:
        return
    import progen
    n, units = PROGRAMS[run.tier]
    crate = os.path.join(WORK, "prog")
    shutil.rmtree(crate, ignore_errors=True)
    os.makedirs(os.path.join(crate, "src", "bin"))
    with open(os.path.join(crate, "Cargo.toml"), "w") as f:
        f.write(PCARGO % VCORE)
    kinds = {}
    for i in range(n):
        s = run.seed * 1000 + i + 7
        g = progen.generate(s, units)
        with open(os.path.join(crate, "src", "gen%d.rs" % i), "w") as f:
            f.write(progen.module(s, g.units))
        with open(os.path.join(crate, "src", "bin", "p%d.rs" % i), "w") as f:
            f.write(MAIN % i)
        for _, code, es in g.units:
            k = ("enum" if re.search(r"pub enum ", code) else "struct") + (" with parameters" if "<" in es[0][0] else "")
            kinds[k] = kinds.get(k, 0) + 1
            for a in re.findall(r"nserde\(([^)]*)\)", code):
                for x in re.findall(r"\b(rename|default_with|default|skip|transparent|proxy|crate|serialize_none_as_null)\b", re.sub(r'"[^"]*"', "", a)):
                    kinds["attribute " + x] = kinds.get("attribute " + x, 0) + 1
    ok, log = m.cargo(crate, "--bins", "--keep-going")
    run.extra["definitions"] = {"compiled": n * units, "classes": dict(sorted(kinds.items()))}
    if not ok:
        i = re.search(r"gen(\d+)\.rs:", log)
        if not i:
            raise m.Broken("the generated program does not build: " + log[-3000:])
        return uncompiled(run, "-gen", os.path.join(crate, "src", "gen%s.rs" % i.group(1)), log)
    for i in range(n):
        run.shards(os.path.join(TARGET, "debug", "p%d" % i), scale=scale(run, 0.15), tag="-gen%d" % i)
        if run.violations:
            # keep the program with the replay
            dst = run.violations[-1][0]
            with open(dst, "a") as f:
                f.write("\nthe program (seed %d):\n%s" % (run.seed * 1000 + i + 7, open(os.path.join(crate, "src", "gen%d.rs" % i)).read()))
            return


# ---------------------------------------------------------------- feature configurations
FORMATS = ["binary", "json", "ron", "toml"]


def configurations(run):
    m = check()
    sets = [s for k in (4, 3, 2, 1) for s in itertools.combinations(FORMATS, k)]
    cfgs = [(std, s) for s in sets for std in (True, False)]
    name = lambda c: "+".join((["std"] if c[0] else []) + list(c[1]))
    count = CFG_CASES[run.tier]

    def build(worker, mine):
        out = []
        for c in mine:
            t = os.path.join(TARGET, "cfg-%d" % worker)
            ok, log = m.cargo(CFG, "--features", ",".join((["std"] if c[0] else []) + list(c[1])), target=t)
            exe = os.path.join(run.dir, "probe-" + name(c))
            if ok:
                shutil.copy(os.path.join(t, "debug", "cfgprobe"), exe)
            out.append((c, exe if ok else None, log))
        return out

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        built = [x for r in ex.map(lambda w: build(w, cfgs[w::8]), range(8)) for x in r]
    built.sort(key=lambda b: cfgs.index(b[0]))
    if built[0][1] is None:
        raise m.Broken("the probe does not build with all features: " + built[0][2][-3000:])
    bad = [(c, log) for c, exe, log in built if exe is None]
    if bad:
        c, log = min(bad, key=lambda b: (len(b[0][1]), b[0][0]))
        run.evals += len(built)
        run.violation_text("-build", "property C20\nwith the features %s the crate, or types derived with it, do not build:\n%s" % (name(c), log[-6000:]),
                           "with the features %s (and %d other sets) it does not build: %s" % (name(c), len(bad) - 1, log[:1200]))
        return
    def go(b):
        out = os.path.join(run.dir, "t-" + name(b[0]))
        os.makedirs(out)
        r = m.sh([b[1], "run", str(run.seed), str(count), out])
        return r

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(go, built))
    if res[0].returncode != 0:
        raise m.Broken("the probe with all features ended with %s: %s" % (res[0].returncode, res[0].stdout[-1000:]))
    ref = os.path.join(run.dir, "t-" + name(cfgs[0]))
    for (c, exe, _), r in zip(built, res):
        out = os.path.join(run.dir, "t-" + name(c))
        if r.returncode != 0:
            run.violation_text("-run", "property C20\nwith the features %s the same cases end the process (%s)\n%s" % (name(c), r.returncode, r.stdout[-2000:]),
                               "with the features %s the process ended with %s" % (name(c), r.returncode))
            return
        for line in open(os.path.join(out, "stats")):
            f, n, ok, seen = line.split()
            run.evals += int(n)
            run.nontrivial += int(ok)
            if c == cfgs[0]:
                run.distinct += int(seen)
            run.labels["%s in %d configurations, decoded" % (f, 16)] = run.labels.get("%s in %d configurations, decoded" % (f, 16), 0) + int(ok)
            a, b = (open(os.path.join(d, f), "rb").read() for d in (ref, out))
            if a != b:
                differ(run, cfgs[0], c, built[0][1], exe, f, a, b, name)
                return
    for f in FORMATS:
        for i in range(4, 10):
            run.samples.append(m.sh([built[0][1], "show", f, str(i), str(run.seed)]).stdout.strip()[:300])
    run.extra["configurations"] = [name(c) for c in cfgs]


def differ(run, c0, c, exe0, exe, f, a, b, name):
    m = check()
    i = next(i for i in range(len(a) // 8) if a[8 * i:8 * i + 8] != b[8 * i:8 * i + 8])
    show = lambda e: m.sh([e, "show", f, str(i), str(run.seed)]).stdout.strip()
    x, y = show(exe0), show(exe)
    t, _, h = m.sh([exe0, "case", f, str(i), str(run.seed)]).stdout.strip().partition(" ")
    ev = lambda e, h: m.sh([e, "eval", f, t, h]).stdout
    budget = 400
    if ev(exe0, h) != ev(exe, h):
        n = len(h) // 4
        while n:
            k, small = 0, False
            while k < len(h) // 2 and budget:
                g = h[:2 * k] + h[2 * (k + n):]
                budget -= 1
                if ev(exe0, g) != ev(exe, g):
                    h, small = g, True
                else:
                    k += n
            n = n // 2 if not small or n > 1 else (1 if small else 0)
            if not budget:
                break
        x, y = ev(exe0, h).strip(), ev(exe, h).strip()
    txt = "%s\nwith %s: %s\nwith %s: %s\n" % (f, name(c0), x, name(c), y)
    run.violation_text("-diff", "property C20\n%scase %d of seed %d; input in hexadecimal %s\n" % (txt, i, run.seed, h), txt)


# ---------------------------------------------------------------- words
TYPES = ("A case draws a type from the registry (the library's own types in vcore and about 450 generated and hand-written "
         "derived types in zoo, kept in source form in git) and a value of it from a weighted generator (bounds, powers of two, "
         "NaN payloads, subnormals, surrogate neighbours, empty and long containers; in the large-* parts up to 140,000 elements). ")
NT = "Non-trivial: the value is not the type's smallest (zero, empty, None, first variant with such fields); distinct by type and encoding."
RULES = {
    "C01": TYPES + "It is written, read back alone, and read at offsets inside larger buffers made of several values one after another; recursive types up to 2,000 levels deep. " + NT,
    "C02": TYPES + "The bytes are compared with an independent encoder working from the type's description, and the independent encoder's bytes are decoded. " + NT,
    "C03": TYPES + "Its bytes are cut at every length, have one length prefix, tag, variant index, nanoseconds or text byte replaced, are mutated, or are noise, read at ordinary and extreme offsets; the outcome is compared with an independent strict decoder under a memory cap proportional to the input. Non-trivial: every such input; distinct by type and bytes.",
    "C04": TYPES + "It is written as JSON and read back; recursive types up to 2,000 levels deep. " + NT,
    "C05": TYPES + "The JSON is read by an independent RFC 8259 parser and interpreted through the type's description; the result must be the value. " + NT,
    "C06": TYPES + "An independent writer spells it at random (white space, comments, escapes, member order, number forms, trailing commas), nanoserde must read exactly the value. Non-trivial: the value is not the smallest, or the text has white space or comments.",
    "C07": "Documents that cannot denote a value of the type (one structural or token-level break of a valid spelling, or a cut) must be errors; token soup, random edits and inputs of up to 4 MB must end with an answer, all under a memory cap and a processor-time limit. Non-trivial: every such document; distinct by type and text.",
    "C08": "Literals around every bound of every type, powers of two and ten and random lengths, in both formats, alone and nested, judged by big-integer arithmetic; every value of the 8- and 16-bit types is enumerated. Non-trivial: every literal; distinct by type, format and text.",
    "C09": TYPES + "Members are permuted, omitted where the declaration allows, surrounded by unknown members of arbitrary content (up to 150,000 levels deep), or a required one is left out. Non-trivial: every document; distinct by type and text.",
    "C10": TYPES + "It is written as RON and read back; recursive types up to 2,000 levels deep. " + NT,
    "C11": TYPES + "The RON is read by an independent parser and interpreted through the type's description; the result must be the value. " + NT,
    "C12": TYPES + "An independent writer spells it at random, nanoserde must read exactly the value. Non-trivial: the value is not the smallest, or the text has white space or comments.",
    "C13": "As C07, for RON.",
    "C14": TYPES + "Members are permuted, omitted where the declaration allows, or a required one is left out or an unknown one put in. Non-trivial: every document; distinct by type and text.",
    "C15": "A document of the subset is generated together with the map it denotes, every free choice (spacing, comments, line endings, key and value spellings, table order) at random. Non-trivial: it has more than one top-level entry; distinct by text.",
    "C16": "Token soup, random edits and cuts of valid documents, statements that must be errors put where nothing repairs them, and inputs of up to 4 MB on a 2 MB stack, under a memory cap and a processor-time limit. Non-trivial: every text; distinct by text.",
    "C17": "The derive macros compile the type definitions kept in zoo and further programs generated from this run's seed out of the supported grammar; every type is then put through round trips, independent encoders and parsers, spellings, malformed documents and member selections. A definition that does not compile is a violation. Non-trivial: as for those checks; distinct by type and text.",
    "C18": "Containers of values that count their own construction and drop are decoded from valid, cut, mutated and token-level broken inputs in the three formats; afterwards every value made must have been dropped exactly once, and decoding ordinary types must leave no memory allocated. Non-trivial: every input; distinct by type and input.",
    "C19": "Failing inputs made so that the first unreadable character is known (cuts, illegal characters, replaced tokens, TOML, binary cuts at offsets): the position must be there, and must shift by exactly what is put in front. Non-trivial: every failing input; distinct by type and text.",
    "C20": "All 30 combinations of the features (std or not, every non-empty subset of the formats) are built; the same seeded cases (values serialized, documents and bytes decoded, valid and not) run in each, and the outcomes, including error positions, are compared with the build that has everything. An evaluation is one case in one configuration; non-trivial: the input decoded; distinct by outcome, counted in the full build.",
    "C21": "Durations and times around the carry, epoch and overflow boundaries through each format, and parts in any order, left out, repeated, misnamed or out of range, judged by exact integer arithmetic. Non-trivial: every one; distinct by value or text.",
    "C22": TYPES + "Values are appended to outputs holding something already, at several indents, twice; values of several types are written one after another and read with one decoder state. " + NT,
    "C23": "Bit patterns of f32 and f64 (random, extremes, powers and their neighbours; an enumerated slice of all f32, in the thorough tier all of them) written and read back; decimal literals built next to rounding midpoints, range ends and by random shape, judged by exact rational arithmetic. Non-trivial: every one; distinct by bits or text.",
    "C24": "Every scalar value alone and between others, every \\uXXXX escape (both exhaustively), malformed escapes and random mixtures, as value, map key and container member, in both formats. Non-trivial: every one; distinct by text.",
}
ASSUME = {
    "": ["debug build of /repo's working tree with overflow checks and debug assertions, x86-64 Linux",
         "the generators, reference encoders, parsers and arithmetic in /verif/vcore are right"],
    "C03": ["element types that occupy at least one byte (a claimed length of 2^64-1 elements of no bytes loops as long)"],
    "C15": ["the subset of TOML described in DESIGN.md"],
    "C17": ["the grammar of definitions described in DESIGN.md"],
    "C20": ["host with std available: the configurations without std are compiled without the feature, not for a bare target"],
}


def rule(prop):
    return RULES.get(prop, "")


def assumptions(prop):
    return ASSUME.get(prop, []) + ASSUME.get("", [])
