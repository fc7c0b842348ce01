//! run / replay / shrink / merge
use crate::engine::*;
use crate::props;
use crate::reg::Entry;
use std::fmt::Write as _;
use std::os::unix::fs::FileExt;
use std::path::Path;
use std::process::{Command, ExitCode, Stdio};

fn case_seed(seed: u64, prop: &str, sub: &str, index: u64) -> u64 {
    hash64(format!("{}/{}/{}/{}", seed, prop, sub, index).as_bytes())
}
fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(256 << 20).spawn(f).unwrap().join().unwrap()
}

pub struct Replay {
    pub prop: String,
    pub sub: String,
    pub choices: Vec<u64>,
    pub msg: String,
}
impl Replay {
    pub fn write(&self, p: &Path) {
        let mut s = format!("property {}\nsub {}\nchoices", self.prop, self.sub);
        for c in &self.choices {
            let _ = write!(s, " {}", c);
        }
        s.push_str("\nmessage ");
        s.push_str(&self.msg);
        s.push('\n');
        std::fs::write(p, s).unwrap()
    }
    pub fn read(p: &Path) -> Replay {
        let s = std::fs::read_to_string(p).unwrap();
        let mut r = Replay { prop: String::new(), sub: String::new(), choices: vec![], msg: String::new() };
        let mut lines = s.lines();
        while let Some(l) = lines.next() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "property" => r.prop = v.into(),
                "sub" => r.sub = v.into(),
                "choices" => r.choices = v.split_whitespace().map(|x| x.parse().unwrap()).collect(),
                "message" => {
                    r.msg = v.into();
                    for l in lines.by_ref() {
                        r.msg.push('\n');
                        r.msg.push_str(l)
                    }
                }
                _ => {}
            }
        }
        r
    }
}

fn run(reg: &'static [Entry], prop: String, tier: String, seed: u64, shard: u64, shards: u64, out: String) -> ExitCode {
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let only = std::env::var("VERIF_SUB").ok();
    install_hook();
    watchdog(CASE_CPU_MS);
    let failed = on_big_stack(move || {
        let out = Path::new(&out);
        let journal = std::fs::File::create(out.join(format!("journal-{}", shard))).unwrap();
        let mut ctx = Ctx::default();
        let t0 = std::time::Instant::now();
        let mut failed = false;
        let mut stats = String::new();
        let mut per_sub = String::new();
        'all: for (si, sub) in props::subs(&prop, reg).iter().enumerate() {
            if only.as_ref().is_some_and(|o| o != sub.name && !o.strip_suffix('*').is_some_and(|p| sub.name.starts_with(p))) {
                continue;
            }
            let n = if tier == "thorough" { sub.thorough } else { sub.quick };
            let n = if sub.indexed { n } else { ((n as f64) * scale) as u64 };
            ctx.sub = sub.name;
            let (e0, t1) = (ctx.evals, std::time::Instant::now());
            let mut i = shard;
            while i < n {
                let mut b = [0u8; 16];
                b[..8].copy_from_slice(&(si as u64).to_le_bytes());
                b[8..].copy_from_slice(&i.to_le_bytes());
                journal.write_all_at(&b, 0).unwrap();
                ctx.index = i;
                if shard == 0 && (i / shards) % (n / shards / 2).max(1) == 3.min(n / shards / 4) {
                    ctx.want_sample = true
                }
                let mut src = Src::random(case_seed(seed, &prop, sub.name, i), sub.indexed.then_some(i));
                if let Err(f) = run_case(sub, &mut src, &mut ctx) {
                    let used = src.used().min(src.choices.len());
                    src.choices.truncate(used);
                    let best = shrink(src.choices, 15_000, sub.indexed, &mut |c| {
                        let mut s = Src::replay(c.to_vec());
                        run_case(sub, &mut s, &mut Ctx::default()).is_err()
                    });
                    let mut s = Src::replay(best.clone());
                    let msg = match run_case(sub, &mut s, &mut Ctx::default()) {
                        Err(f) => f.msg,
                        Ok(()) => f.msg,
                    };
                    Replay { prop: prop.clone(), sub: sub.name.into(), choices: best, msg }.write(&out.join(format!("fail-{}", shard)));
                    failed = true;
                    break 'all;
                }
                i += shards;
            }
            let _ = write!(per_sub, "{}{}: {{\"evals\": {}, \"ms\": {}}}", if per_sub.is_empty() { "" } else { ", " }, jstr(sub.name), ctx.evals - e0, t1.elapsed().as_millis());
        }
        watchdog_rest();
        let _ = write!(stats, "{{\"evals\": {}, \"nontrivial\": {}, \"wall\": {}, \"subs\": {{{}}}, \"labels\": {{", ctx.evals, ctx.nontrivial, t0.elapsed().as_secs_f64(), per_sub);
        for (i, (k, v)) in ctx.labels.iter().enumerate() {
            let _ = write!(stats, "{}{}: {}", if i > 0 { ", " } else { "" }, jstr(k), v);
        }
        stats.push_str("}, \"samples\": [");
        for (i, k) in ctx.samples.iter().enumerate() {
            let _ = write!(stats, "{}{}", if i > 0 { ", " } else { "" }, jstr(k));
        }
        stats.push_str("]}");
        std::fs::write(out.join(format!("stats-{}.json", shard)), stats).unwrap();
        let mut h: Vec<u64> = ctx.hashes.into_iter().collect();
        h.sort_unstable();
        let bytes: Vec<u8> = h.iter().flat_map(|x| x.to_le_bytes()).collect();
        std::fs::write(out.join(format!("hashes-{}", shard)), bytes).unwrap();
        failed
    });
    ExitCode::from(failed as u8)
}

/// Runs a replay file once in this process.
fn replay(reg: &'static [Entry], file: String) -> ExitCode {
    install_hook();
    let ms = std::env::var("VERIF_CASE_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(CASE_CPU_MS);
    watchdog(ms);
    let bad = on_big_stack(move || {
        let r = Replay::read(Path::new(&file));
        let subs = props::subs(&r.prop, reg);
        let Some(sub) = subs.iter().find(|s| s.name == r.sub) else {
            println!("no such check: {} {}", r.prop, r.sub);
            return false;
        };
        let mut src = Src::replay(r.choices);
        match run_case(sub, &mut src, &mut Ctx::default()) {
            Ok(()) => {
                println!("holds: {} {}", r.prop, r.sub);
                false
            }
            Err(f) => {
                println!("fails: {} {}: {}", r.prop, r.sub, f.msg);
                true
            }
        }
    });
    ExitCode::from(bad as u8)
}

/// Runs one case by its index, writing its choices to a file as they are made.
fn case(reg: &'static [Entry], prop: String, sub: u64, seed: u64, index: u64, out: String) -> ExitCode {
    install_hook();
    watchdog(CASE_CPU_MS);
    let bad = on_big_stack(move || {
        let subs = props::subs(&prop, reg);
        let sub = &subs[sub as usize];
        let mut src = Src::random(case_seed(seed, &prop, sub.name, index), sub.indexed.then_some(index));
        let mut f = std::fs::File::create(&out).unwrap();
        if sub.indexed {
            use std::io::Write;
            f.write_all(&index.to_le_bytes()).unwrap();
        }
        src.trace = Some(f);
        println!("{}", sub.name);
        run_case(sub, &mut src, &mut Ctx::default()).is_err()
    });
    ExitCode::from(bad as u8)
}

/// Shrinks a case that ends the process, running each candidate in a child.
fn shrink_file(prop: String, sub: String, trace: String, out: String) -> ExitCode {
    let b = std::fs::read(&trace).unwrap();
    let start: Vec<u64> = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    let exe = std::env::current_exe().unwrap();
    let tmp = format!("{}.try", out);
    let how = |c: &[u64], ms: &str| -> Option<i32> {
        Replay { prop: prop.clone(), sub: sub.clone(), choices: c.to_vec(), msg: String::new() }.write(Path::new(&tmp));
        let st = Command::new(&exe).args(["replay", &tmp]).env("VERIF_CASE_MS", ms).stdout(Stdio::null()).stderr(Stdio::null()).status().unwrap();
        use std::os::unix::process::ExitStatusExt;
        match st.code() {
            Some(0) => None,
            Some(c) => Some(c),
            None => Some(-st.signal().unwrap_or(1)),
        }
    };
    let Some(want) = how(&start, "20000") else {
        println!("does not fail again");
        return ExitCode::from(3);
    };
    let indexed = false;
    let best = shrink(start, 45_000, indexed, &mut |c| how(c, if want == 97 { "3000" } else { "20000" }) == Some(want));
    let msg = match want {
        97 => format!("no answer after {} ms of processor time", CASE_CPU_MS),
        98 => "uses more memory than its input warrants".to_string(),
        c if c < 0 => format!("process ended by signal {}", -c),
        c => format!("process ended with status {}", c),
    };
    let r = Replay { prop, sub, choices: best, msg };
    r.write(Path::new(&out));
    println!("{}", r.msg);
    let _ = std::fs::remove_file(&tmp);
    ExitCode::SUCCESS
}

fn merge(files: Vec<String>) -> ExitCode {
    let mut all: Vec<u64> = vec![];
    for f in files {
        let b = std::fs::read(f).unwrap();
        all.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
    }
    all.sort_unstable();
    all.dedup();
    println!("{}", all.len());
    ExitCode::SUCCESS
}

pub fn main(reg: &'static [Entry]) -> ExitCode {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let n = |s: &String| s.parse::<u64>().unwrap();
    match a.first().map(|s| s.as_str()) {
        Some("run") => run(reg, a[1].clone(), a[2].clone(), n(&a[3]), n(&a[4]), n(&a[5]), a[6].clone()),
        Some("replay") => replay(reg, a[1].clone()),
        Some("case") => case(reg, a[1].clone(), n(&a[2]), n(&a[3]), n(&a[4]), a[5].clone()),
        Some("shrink") => shrink_file(a[1].clone(), a[2].clone(), a[3].clone(), a[4].clone()),
        Some("merge") => merge(a[1..].to_vec()),
        Some("list") => {
            for e in reg {
                println!("{} bin={} json={} ron={}", e.name, e.bin.is_some(), e.json.is_some(), e.ron.is_some())
            }
            ExitCode::SUCCESS
        }
        Some("probe") => crate::probe::run(&a[1]),
        _ => {
            eprintln!("usage: run PROP TIER SEED SHARD NSHARDS OUTDIR | replay FILE | case PROP SUB SEED INDEX OUT | shrink PROP SUB TRACE OUT | merge FILES | list | probe NAME");
            ExitCode::from(2)
        }
    }
}
