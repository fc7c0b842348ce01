//! Durations and times.
use crate::engine::*;
use crate::ensure;
use crate::text::{self, flatten, join, Mem, Node, Space, NK};
use crate::val::*;
use nanoserde::*;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

fn secs(src: &mut Src) -> u64 {
    match src.below(4) {
        0 => src.below(5) as u64,
        1 => {
            let b = *src.pick(&[1u64 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 33, 1 << 53, 1 << 62, 1 << 63, i64::MAX as u64 / 1_000_000_000, u64::MAX / 1_000_000_000, u64::MAX / 1_000, 1_700_000_000]);
            b.wrapping_add(src.below(5) as u64).wrapping_sub(2)
        }
        2 => u64::MAX - src.below(3) as u64,
        _ => crate::gen::uint(src, 64) as u64,
    }
}
fn nanos(src: &mut Src) -> u32 {
    match src.below(3) {
        0 => *src.pick(&[0, 1, 999, 1000, 999_999, 1_000_000, 999_999_999, 999_999_998, 500_000_000, 100_000_000, 10]),
        1 => src.below(1_000_000_000) as u32,
        _ => 999_999_999 - src.below(3) as u32,
    }
}
/// What (secs, nanos) as read from an input stand for.
fn duration(s: u128, n: u128) -> Option<Duration> {
    if s > u64::MAX as u128 || n > 1_000_000_000 {
        return None;
    }
    Duration::from_secs(s as u64).checked_add(Duration::from_nanos(n as u64))
}
fn time(d: Option<Duration>) -> Option<SystemTime> {
    d.and_then(|d| UNIX_EPOCH.checked_add(d))
}
fn agree<T: PartialEq + std::fmt::Debug>(what: &str, got: Result<T, String>, want: Option<T>) -> R {
    match (got, want) {
        (Ok(a), Some(b)) => ensure!(a == b, "{} is {:?}, decoded as {:?}", what, b, a),
        (Ok(a), None) => return fail(format!("{} stands for no time, decoded as {:?}", what, a)),
        (Err(m), Some(b)) => return fail(format!("{} is {:?}, rejected: {}", what, b, m)),
        (Err(_), None) => {}
    }
    Ok(())
}
fn st<T, E: std::fmt::Debug>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| format!("{:?}", e))
}

pub fn subs() -> Vec<Sub> {
    vec![
        Sub::new("exact", 60_000, 2_000_000, |src, ctx| {
            let d = Duration::new(secs(src), nanos(src));
            ctx.eval();
            ctx.nontrivial(format!("{:?}", d).as_bytes());
            ctx.sample(|| format!("{:?}", d));
            let b = d.serialize_bin();
            let mut want = d.as_secs().to_le_bytes().to_vec();
            want.extend(d.subsec_nanos().to_le_bytes());
            ensure!(b == want, "{:?} in binary is {:02x?}", d, b);
            agree("its binary", st(Duration::deserialize_bin(&b)), Some(d))?;
            let s = d.serialize_json();
            agree(&format!("JSON {}", s), st(Duration::deserialize_json(&s)), Some(d))?;
            let s = d.serialize_ron();
            agree(&format!("RON {}", s), st(Duration::deserialize_ron(&s)), Some(d))?;
            let v = vec![Some(d), None, Some(Duration::ZERO)];
            let s = v.serialize_json();
            agree(&format!("JSON {}", s), st(DeJson::deserialize_json(&s)), Some(v.clone()))?;
            let s = v.serialize_ron();
            agree(&format!("RON {}", s), st(DeRon::deserialize_ron(&s)), Some(v.clone()))?;
            agree("binary of a list", st(DeBin::deserialize_bin(&v.serialize_bin())), Some(v))?;
            let Some(t) = UNIX_EPOCH.checked_add(d) else { return Ok(()) };
            ctx.label("also a SystemTime");
            agree("a SystemTime's binary", st(SystemTime::deserialize_bin(&t.serialize_bin())), Some(t))?;
            let s = t.serialize_json();
            agree(&format!("JSON {}", s), st(SystemTime::deserialize_json(&s)), Some(t))?;
            let s = t.serialize_ron();
            agree(&format!("RON {}", s), st(SystemTime::deserialize_ron(&s)), Some(t))?;
            Ok(())
        }),
        Sub::new("before-epoch", 10_000, 300_000, |src, ctx| {
            let d = Duration::new(secs(src), nanos(src).max(1));
            let Some(t) = UNIX_EPOCH.checked_sub(d) else { return Ok(()) };
            ctx.eval();
            ctx.nontrivial(format!("{:?}", d).as_bytes());
            let b = t.serialize_bin();
            ensure!(b == [0], "a time before the epoch is {:02x?} in binary", b);
            agree("its binary", st(SystemTime::deserialize_bin(&b)), Some(UNIX_EPOCH))?;
            agree("its JSON", st(SystemTime::deserialize_json(&t.serialize_json())), Some(UNIX_EPOCH))?;
            agree("its RON", st(SystemTime::deserialize_ron(&t.serialize_ron())), Some(UNIX_EPOCH))?;
            ensure!(t.serialize_json() == "null", "a time before the epoch is {} in JSON", t.serialize_json());
            let v = vec![t, UNIX_EPOCH + Duration::new(5, 6)];
            let want = vec![UNIX_EPOCH, v[1]];
            agree("JSON of a list", st(DeJson::deserialize_json(&v.serialize_json())), Some(want.clone()))?;
            agree("RON of a list", st(DeRon::deserialize_ron(&v.serialize_ron())), Some(want.clone()))?;
            agree("binary of a list", st(DeBin::deserialize_bin(&v.serialize_bin())), Some(want))?;
            Ok(())
        }),
        Sub::new("binary-parts", 60_000, 2_000_000, |src, ctx| {
            let s = secs(src);
            let n = match src.below(3) {
                0 => nanos(src),
                1 => *src.pick(&[1_000_000_000, 1_000_000_001, 1_999_999_999, 2_000_000_000, u32::MAX, u32::MAX - 1, 1 << 31, 1_000_000_002]),
                _ => src.bits() as u32,
            };
            let mut b = s.to_le_bytes().to_vec();
            b.extend(n.to_le_bytes());
            ctx.eval();
            ctx.nontrivial(&b);
            let d = duration(s as u128, n as u128);
            ctx.label(if d.is_some() { "a duration" } else { "not a duration" });
            let what = format!("binary {} s {} ns", s, n);
            agree(&what, st(Duration::deserialize_bin(&b)), d)?;
            let mut v = vec![1];
            v.extend(&b);
            agree(&format!("{} as a time", what), st(SystemTime::deserialize_bin(&v)), time(d))?;
            for c in 0..12 {
                agree(&format!("{} cut to {} bytes", what, c), st(Duration::deserialize_bin(&b[..c])), None)?;
                agree(&format!("{} as a time, cut to {} bytes", what, c), st(SystemTime::deserialize_bin(&v[..c + 1])), None)?;
            }
            // in the middle of something
            let mut w = vec![9, 9];
            w.extend(&b);
            let mut o = 2;
            agree(&format!("{} at offset 2", what), st(Duration::de_bin(&mut o, &w)), d)?;
            ensure!(d.is_none() || o == 14, "{} at offset 2 ends at {}", what, o);
            Ok(())
        }),
        Sub::new("text-parts", 120_000, 4_000_000, |src, ctx| {
            let json = src.below(2) == 0;
            let fmt = if json { Fmt::Json } else { Fmt::Ron };
            let s: u128 = if src.chance(1, 8) { u64::MAX as u128 + 1 + src.below(1000) as u128 } else { secs(src) as u128 };
            let n: u128 = match src.below(5) {
                0 | 1 => nanos(src) as u128,
                2 => *src.pick(&[1_000_000_000, 1_000_000_001, 1_000_000_002, 1_999_999_999, 2_000_000_000, 5_000_000_000, u32::MAX as u128, 1 << 32, (1 << 32) + 1, (1 << 32) + 1_000_000, 1 << 64, (1 << 64) + 5, (1 << 96) + 7]),
                3 => 1_000_000_000,
                _ => 0,
            };
            // members: (name, text), and what they mean
            let mut mems = vec![("secs", s.to_string())];
            let mut want = duration(s, n);
            if n > 0 || src.chance(1, 3) {
                mems.push(("nanos", n.to_string()))
            }
            let mut how = if want.is_some() { "valid" } else { "out of range" };
            match src.below(16) {
                0 => {
                    let i = src.below(mems.len());
                    mems.push((mems[i].0, src.below(3).to_string()));
                    want = None;
                    how = "repeated member"
                }
                1 => {
                    mems.remove(0);
                    want = None;
                    how = "no secs"
                }
                2 => {
                    mems.push((*src.pick(&["sec", "nano", "Secs", "SECS", "nanos ", "millis", "", "seconds", "ns", "secs2"]), src.below(3).to_string()));
                    want = None;
                    how = "other member"
                }
                3 => {
                    let i = src.below(mems.len());
                    mems[i].1 = src.pick(&["-1", "1.0", "null", "\"1\"", "[1]", "{}", "true", "1e3", "-9223372036854775808", "0.5"]).to_string();
                    want = None;
                    how = "member of the wrong kind"
                }
                _ => {}
            }
            src.shuffle(&mut mems);
            let atom = |s: String| Node { slot: Some(text::STR), pre: String::new(), k: NK::Atom(s) };
            let ms = mems
                .iter()
                .map(|(k, v)| Mem { key: atom(text::quote(src, k, fmt, true)), val: atom(v.clone()), required: false })
                .collect();
            let node = Node { slot: Some(text::STR), pre: String::new(), k: NK::Obj { open: '{', mems: ms, trail: true, wrapper: false } };
            let mut t = vec![];
            flatten(src, &node, true, &mut t);
            let sp = *src.pick(&[Space::Tight, Space::White, Space::Comments]);
            let (doc, _) = join(src, &t, sp);
            ctx.eval();
            ctx.nontrivial(format!("{}{}", json, doc).as_bytes());
            ctx.label(how);
            ctx.sample(|| format!("{} ({})", doc, how));
            let what = format!("{} {} ({})", if json { "JSON" } else { "RON" }, doc, how);
            let list = format!("[{}, {}]", doc, doc);
            let wl = want.map(|d| vec![d, d]);
            let wt = time(want);
            if json {
                agree(&what, st(Duration::deserialize_json(&doc)), want)?;
                agree(&format!("{} as a time", what), st(SystemTime::deserialize_json(&doc)), wt)?;
                agree(&format!("{}, twice in a list", what), st(DeJson::deserialize_json(&list)), wl)?;
                agree(&format!("{}, optional", what), st(DeJson::deserialize_json(&doc)), want.map(Some))?;
            } else {
                agree(&what, st(Duration::deserialize_ron(&doc)), want)?;
                agree(&format!("{} as a time", what), st(SystemTime::deserialize_ron(&doc)), wt)?;
                agree(&format!("{}, twice in a list", what), st(DeRon::deserialize_ron(&list)), wl)?;
                agree(&format!("{}, optional", what), st(DeRon::deserialize_ron(&doc)), want.map(Some))?;
            }
            Ok(())
        }),
    ]
}
