//! Where errors are reported.
use super::bin::bounded;
use super::text::{broken, clip, cut, de, entries, fmt_of, fname, key, long_gap, pos_of};
use super::Reg;
use crate::engine::*;
use crate::ensure;
use crate::gen;
use crate::refbin;
use crate::reg::{Entry, TxtE};
use crate::text::{self, *};
use crate::tomlgen;
use nanoserde::TomlParser;

/// Characters no token of any of the text formats starts with.
const ILLEGAL: &[char] = &['@', '$', '%', '&', '*', ';', '<', '>', '?', '^', '~', '`', '!', '|'];
fn read(s: &str, at: usize) -> (usize, usize) {
    // (line, column) once everything up to byte `at` has been read
    pos_of(s, at)
}
fn prefix(src: &mut Src) -> String {
    let mut p = String::new();
    if src.chance(1, 250) {
        p.push_str(&long_gap(src, false))
    }
    for _ in 0..src.below(4) {
        match src.below(3) {
            0 => p.push_str(&"\n".repeat(src.range(1, 3))),
            1 => p.push_str(&" ".repeat(src.range(1, 9))),
            _ => p.push_str(src.pick::<&str>(&["\t", "\r\n", " \n ", "\t\t"])),
        }
    }
    p
}
fn shifted(p: &str, e: (usize, usize)) -> (usize, usize) {
    let (l, c) = read(p, p.len());
    if e.0 == 0 {
        (l, e.1 + c)
    } else {
        (e.0 + l, e.1)
    }
}
/// Characters read when the report is (line, col); None if there is no such place.
fn offset_of(s: &str, e: (usize, usize)) -> Option<usize> {
    let mut lines = s.split('\n');
    let mut n = 0;
    for _ in 0..e.0 {
        n += lines.next()?.chars().count() + 1
    }
    let l = lines.next()?.chars().count();
    if e.1 > l {
        None
    } else {
        Some(n + e.1)
    }
}
fn at(e: &TxtE) -> (usize, usize) {
    (e.line, e.col)
}
/// The numbers in a message.
fn numbers(s: &str) -> Vec<usize> {
    s.split(|c: char| !c.is_ascii_digit()).filter_map(|d| d.parse().ok()).collect()
}
/// The message ends with the place, counted from one.
fn says(msg: &str, (line, col): (usize, usize)) -> Result<(), String> {
    if numbers(msg).ends_with(&[line + 1, col + 1]) {
        return Ok(());
    }
    Err(format!("the error at {:?} (from zero) says {:?}", (line, col), msg))
}

pub fn subs(reg: Reg) -> Vec<Sub> {
    let ej = entries(reg, true);
    let er = entries(reg, false);
    let both = move || (ej.clone(), er.clone());
    let (b1, b2, b3, b4) = (both(), both(), both(), both());
    let bins: Vec<Entry> = reg.iter().filter(|e| e.bin.is_some() && bounded((e.ty)())).copied().collect();
    vec![
        Sub::new("cut", 60_000, 2_000_000, move |src, ctx| {
            let json = src.below(2) == 0;
            let es = if json { &b1.0 } else { &b1.1 };
            let Some((e, s, c)) = cut(es, src, json, text::LOOSE) else { return Ok(()) };
            let s = &s[..c];
            ctx.eval();
            ctx.nontrivial(&key(&e, s));
            ctx.label(if json { "JSON cut short" } else { "RON cut short" });
            ctx.sample(|| format!("{}: {}", e.name, clip(s)));
            match de(&e, json, s) {
                Ok(_) => Ok(()), // C07/C13
                Err(x) => {
                    let w = read(s, s.len());
                    ensure!(at(&x) == w, "{} from {} {} ends at {:?}, the error is reported at {:?}: {}", e.name, fname(json), clip(s), w, at(&x), x.msg);
                    Ok(())
                }
            }
        }),
        Sub::new("illegal", 60_000, 2_000_000, move |src, ctx| {
            let json = src.below(2) == 0;
            let es = if json { &b2.0 } else { &b2.1 };
            let e = *src.pick(es);
            let ty = (e.ty)();
            let mut v = gen::value(src, ty, gen::TEXT);
            let n = build(src, &mut v, ty, fmt_of(json), LOOSE);
            let mut t = vec![];
            flatten(src, &n, true, &mut t);
            let sp = *src.pick(&[Space::White, Space::Tight, Space::Comments]);
            let (mut s, pos) = join(src, &t, sp);
            let i = src.below(pos.len());
            let c = *src.pick(ILLEGAL);
            let b = pos[i].0;
            s.insert(b, c);
            ctx.eval();
            ctx.nontrivial(&key(&e, &s));
            ctx.label(if json { "JSON illegal character" } else { "RON illegal character" });
            match de(&e, json, &s) {
                Ok(_) => Ok(()),
                Err(x) => {
                    let w = read(&s, b + c.len_utf8());
                    ensure!(at(&x) == w, "{} from {} {}: {:?} is at {:?}, the error is reported at {:?}: {}", e.name, fname(json), clip(&s), c, w, at(&x), x.msg);
                    Ok(())
                }
            }
        }),
        // a token that cannot come next
        Sub::new("token", 60_000, 2_000_000, move |src, ctx| {
            let json = src.below(2) == 0;
            let es = if json { &b3.0 } else { &b3.1 };
            let e = *src.pick(es);
            let ty = (e.ty)();
            let mut v = gen::value(src, ty, gen::TEXT);
            let n = build(src, &mut v, ty, fmt_of(json), LOOSE);
            let mut t = vec![];
            flatten(src, &n, true, &mut t);
            let i = src.below(t.len());
            let old = t[i].clone();
            // closing brackets could end an empty list here, so none stands in for a value
            if old.skipped {
                return Ok(());
            }
            let new = match old.role {
                Role::Open => src.pick(&[":", ","]).to_string(),
                Role::Close => src.pick(&[":", "@"]).to_string(),
                Role::Comma => src.pick(&[":", "@"]).to_string(),
                Role::TrailComma => src.pick(&[":", "@"]).to_string(),
                Role::Colon => src.pick(&[",", "]", "}"]).to_string(),
                Role::Atom => src.pick(&[":", ","]).to_string(),
                Role::Ident => src.pick(&[":", ","]).to_string(),
            };
            t[i].s = new.clone();
            let (s, pos) = join(src, &t, Space::Comments);
            ctx.eval();
            ctx.nontrivial(&key(&e, &s));
            let x = match de(&e, json, &s) {
                Ok(_) => return Ok(()), // e.g. ']' instead of the closing bracket of an empty list
                Err(x) => x,
            };
            let what = || format!("{} from {} {} (token {} is {:?} instead of {:?})", e.name, fname(json), clip(&s), i, new, old.s);
            let Some(o) = offset_of(&s, at(&x)) else {
                return fail(format!("{}: error reported at {:?}, where there is nothing", what(), at(&x)));
            };
            let lo = s[..pos[i].0].chars().count();
            ensure!(o > lo, "{}: error reported at {:?}, before the offending token at {:?}", what(), at(&x), read(&s, pos[i].0));
            // the offending token, at most one more token and one character of lookahead
            let j = (i + 1).min(pos.len() - 1);
            let hi = (s[..pos[j].1].chars().count() + 1).min(s.chars().count());
            ensure!(o <= hi, "{}: error reported at {:?}, long after the offending token at {:?}", what(), at(&x), read(&s, pos[i].0));
            Ok(())
        }),
        Sub::new("shift", 60_000, 2_000_000, move |src, ctx| {
            let json = src.below(2) == 0;
            let es = if json { &b4.0 } else { &b4.1 };
            let Some((e, s, how)) = broken(es, src, json) else { return Ok(()) };
            let p = prefix(src);
            let t = format!("{}{}", p, s);
            ctx.eval();
            ctx.nontrivial(&key(&e, &t));
            match (de(&e, json, &s), de(&e, json, &t)) {
                (Err(a), Err(b)) => {
                    let w = shifted(&p, at(&a));
                    ensure!(at(&b) == w, "{} from {} {} ({}): error at {:?}; behind {} it is reported at {:?} rather than {:?}", e.name, fname(json), clip(&s), how, at(&a), clip(&p), at(&b), w);
                    ensure!(offset_of(&t, at(&b)).is_some(), "{} from {} {}: error reported at {:?}, where there is nothing", e.name, fname(json), clip(&t), at(&b));
                    if let Err(m) = says(&b.msg, at(&b)) {
                        return fail(format!("{} from {} {}: {}", e.name, fname(json), clip(&t), m));
                    }
                }
                (a, b) => ensure!(a.is_ok() == b.is_ok(), "{} from {} {}: leading space {} changes the outcome", e.name, fname(json), clip(&s), clip(&p)),
            }
            Ok(())
        }),
        Sub::new("toml", 60_000, 2_000_000, move |src, ctx| {
            let d = tomlgen::document(src);
            let (s, starts) = (d.text, d.starts);
            let mut b = s.clone();
            // something that cannot be there, at the start of a line
            let i = src.below(starts.len());
            let cut = src.below(2) == 1;
            let place = starts[i];
            if cut {
                b.truncate(place);
                b.push_str(src.pick::<&str>(&["key", "key =", "key = \"abc", "[tab", "[[tab", "[[tab]", "k = [1, 2", "k = [\"a", "k = \"\"\"x\ny\"", "key = [[", "a.b.c = "]));
                b.push_str(src.pick::<&str>(&["", " ", "\n", "\n \n"]));
            } else {
                b.insert(place, *src.pick(ILLEGAL))
            }
            let p = prefix(src);
            let t = format!("{}{}", p, b);
            ctx.eval();
            ctx.nontrivial(t.as_bytes());
            ctx.label(if cut { "TOML cut short" } else { "TOML illegal character" });
            ctx.sample(|| format!("TOML {}", clip(&b)));
            let e = match TomlParser::parse(&b) {
                Ok(_) => return fail(format!("TOML {} is accepted", clip(&b))),
                Err(e) => {
                    if let Err(m) = says(&e.to_string(), (e.line, e.col)) {
                        return fail(format!("TOML {}: {}", clip(&b), m));
                    }
                    (e.line, e.col)
                }
            };
            let w = if cut { read(&b, b.len()) } else { read(&b, place + 1) };
            ensure!(e == w, "TOML {}: goes wrong at {:?}, reported at {:?}", clip(&b), w, e);
            match TomlParser::parse(&t) {
                Ok(_) => return fail(format!("TOML {} is accepted", clip(&t))),
                Err(f) => ensure!((f.line, f.col) == shifted(&p, e), "TOML {}: error at {:?}; behind {} it is reported at {:?}", clip(&b), e, clip(&p), (f.line, f.col)),
            }
            Ok(())
        }),
        Sub::new("binary", 80_000, 2_500_000, move |src, ctx| {
            let e = src.pick(&bins);
            let f = e.bin.unwrap();
            let ty = (e.ty)();
            let v = gen::value(src, ty, gen::BIN);
            let (mut b, mut m) = (vec![], vec![]);
            refbin::encode_marked(&v, ty, &mut b, &mut m);
            let how = src.below(3);
            let mut low = 0;
            match how {
                0 if !b.is_empty() => b.truncate(src.below(b.len())),
                1 if !m.is_empty() => {
                    let (i, k) = *src.pick(&m);
                    low = i;
                    match k {
                        refbin::Mark::Len => {
                            low = i;
                            b[i + src.range(1, 7)] = 1 + src.below(255) as u8
                        }
                        refbin::Mark::Variant => {
                            b[i] = 0xff;
                            b[i + 1] = 0xff
                        }
                        refbin::Mark::Nanos => b[i..i + 4].copy_from_slice(&u32::MAX.to_le_bytes()),
                        refbin::Mark::Tag => b[i] = 2 + src.below(254) as u8,
                        refbin::Mark::Text => {
                            if i < b.len() {
                                b[i] = 0xff
                            }
                        }
                    }
                }
                _ => {
                    if !b.is_empty() {
                        let i = src.below(b.len());
                        b[i] ^= 1 << src.below(8)
                    }
                }
            }
            let n = if src.chance(1, 250) { gen::big(src) } else { src.range(1, 60) };
            let mut t: Vec<u8> = (0..n).map(|_| src.below(256) as u8).collect();
            t.extend(&b);
            ctx.eval();
            ctx.nontrivial(&t);
            let (mut o, mut p) = (0, n);
            let what = || format!("{} from {:02x?}", e.name, &b[..b.len().min(60)]);
            match ((f.de_at)(&mut o, &b), (f.de_at)(&mut p, &t)) {
                (Err(x), Err(y)) => {
                    ctx.label("binary error");
                    ensure!(x.o <= b.len(), "{}: error reported at {} of {}", what(), x.o, b.len());
                    ensure!(numbers(&y.msg).contains(&y.o), "{}: the error at {} says {:?}", what(), y.o, y.msg);
                    ensure!(y.o == x.o + n, "{}: error at {}; decoded {} bytes further on it is reported at {}", what(), x.o, n, y.o);
                    // Everything before the replaced part is valid; an error elsewhere may
                    // follow from a length that claims what comes after it.
                    if how == 1 && x.o < low {
                        return fail(format!("{}: error reported at {}, before byte {} where the first change is", what(), x.o, low));
                    }
                }
                (x, y) => ensure!(x.is_ok() == y.is_ok(), "{}: decodes differently {} bytes further on", what(), n),
            }
            Ok(())
        }),
    ]
}
