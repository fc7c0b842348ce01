//! JSON and RON: round trips, what the output means, spellings, malformed input.
use super::Reg;
use crate::engine::*;
use crate::ensure;
use crate::gen;
use crate::reg::{Entry, TxtE};
use crate::text::{self, *};
use crate::val::*;

pub fn fmt_of(json: bool) -> Fmt {
    if json {
        Fmt::Json
    } else {
        Fmt::Ron
    }
}
pub fn fname(json: bool) -> &'static str {
    if json {
        "JSON"
    } else {
        "RON"
    }
}
pub fn entries(reg: Reg, json: bool) -> Vec<Entry> {
    reg.iter()
        .filter(|e| if json { e.json.is_some() } else { e.ron.is_some() })
        .filter(|e| text_lossless((e.ty)(), json))
        .copied()
        .collect()
}
pub fn ser(e: &Entry, json: bool, v: &Val) -> String {
    if json {
        (e.json.unwrap().ser)(v)
    } else {
        (e.ron.unwrap().ser)(v)
    }
}
pub fn de(e: &Entry, json: bool, s: &str) -> Result<Val, TxtE> {
    if json {
        (e.json.unwrap().de)(s)
    } else {
        (e.ron.unwrap().de)(s)
    }
}
pub fn key(e: &Entry, s: &str) -> Vec<u8> {
    format!("{}\0{}", e.name, s).into_bytes()
}
pub fn clip(s: &str) -> String {
    let mut n = s.len().min(700);
    while !s.is_char_boundary(n) {
        n -= 1
    }
    if n < s.len() {
        format!("{:?}... ({} bytes)", &s[..n], s.len())
    } else {
        format!("{:?}", s)
    }
}

pub fn roundtrip(reg: Reg, json: bool) -> Vec<Sub> {
    let fmt = fmt_of(json);
    let es = entries(reg, json);
    let big: Vec<Entry> = es.iter().filter(|e| gen::can_grow((e.ty)())).copied().collect();
    let one = move |src: &mut Src, ctx: &mut Ctx, e: &Entry, large: bool| -> R {
        let ty = (e.ty)();
        let v = if large { gen::large(src, ty, gen::TEXT) } else { gen::value(src, ty, gen::TEXT) };
        let s = ser(e, json, &v);
        let want = normalize(&v, ty, fmt);
        ctx.eval();
        if !gen::boring(&v) {
            ctx.nontrivial(&key(e, &s))
        }
        ctx.sample(|| format!("{}: {}", e.name, clip(&s)));
        match de(e, json, &s) {
            Ok(x) => ensure!(x == want, "{}: {} written as {} came back as {}", e.name, want.show(), clip(&s), x.show()),
            Err(x) => return fail(format!("{}: {} written as {} is rejected: {}", e.name, v.show(), clip(&s), x.msg)),
        }
        Ok(())
    };
    let mut v = vec![Sub::new("roundtrip", 70_000, 2_500_000, move |src, ctx| {
        let e = *src.pick(&es);
        one(src, ctx, &e, false)
    })];
    if !big.is_empty() {
        v.push(Sub::new("large", 10, 3_000, move |src, ctx| {
            let e = *src.pick(&big);
            one(src, ctx, &e, true)
        }));
    }
    v
}

pub fn denotes(reg: Reg, json: bool) -> Vec<Sub> {
    let fmt = fmt_of(json);
    let es: Vec<Entry> = entries(reg, json).into_iter().filter(|e| !json || std_json_keys((e.ty)())).collect();
    let big: Vec<Entry> = es.iter().filter(|e| gen::can_grow((e.ty)())).copied().collect();
    let one = move |src: &mut Src, ctx: &mut Ctx, e: &Entry, large: bool| -> R {
        let ty = (e.ty)();
        let cfg = gen::Cfg { finite: true, pre_epoch: true };
        let v = if large { gen::large(src, ty, cfg) } else { gen::value(src, ty, cfg) };
        let s = ser(e, json, &v);
        let want = normalize(&v, ty, fmt);
        ctx.eval();
        if !gen::boring(&v) {
            ctx.nontrivial(&key(e, &s))
        }
        ctx.sample(|| format!("{}: {}", e.name, clip(&s)));
        let j = match text::parse(&s, fmt) {
            Ok(j) => j,
            Err(m) => return fail(format!("{}: {} written as {} is not {}: {}", e.name, v.show(), clip(&s), fname(json), m)),
        };
        match interp(&j, ty, fmt) {
            Ok(x) => ensure!(x == want, "{}: {} written as {}, which denotes {}", e.name, want.show(), clip(&s), x.show()),
            Err(m) => return fail(format!("{}: {} written as {}, which does not denote it: {}", e.name, v.show(), clip(&s), m)),
        }
        Ok(())
    };
    let mut v = vec![Sub::new("denotes", 70_000, 2_500_000, move |src, ctx| {
        let e = *src.pick(&es);
        one(src, ctx, &e, false)
    })];
    if !big.is_empty() {
        v.push(Sub::new("large", 10, 3_000, move |src, ctx| {
            let e = *src.pick(&big);
            one(src, ctx, &e, true)
        }));
    }
    v
}

pub fn spellings(reg: Reg, json: bool) -> Vec<Sub> {
    let fmt = fmt_of(json);
    let es = entries(reg, json);
    let run = move |es: &[Entry], src: &mut Src, ctx: &mut Ctx, sp: Space, long: bool| -> R {
        let e = src.pick(es);
        let ty = (e.ty)();
        let cfg = gen::Cfg { finite: true, pre_epoch: true };
        let mut v = if long && gen::can_grow(ty) { gen::large(src, ty, cfg) } else { gen::value(src, ty, cfg) };
        let n = build(src, &mut v, ty, fmt, SPELL);
        let mut t = vec![];
        flatten(src, &n, sp == Space::Comments, &mut t);
        let (mut s, at) = join(src, &t, sp);
        if long && src.below(3) > 0 {
            let i = src.below(at.len() + 1);
            let i = if i < at.len() { at[i].0 } else { s.len() };
            s.insert_str(i, &long_gap(src, true))
        }
        ctx.eval();
        if !gen::boring(&v) || s.len() > t.iter().map(|x| x.s.len()).sum() {
            ctx.nontrivial(&key(e, &s))
        }
        ctx.sample(|| format!("{}: {}", e.name, clip(&s)));
        match de(e, json, &s) {
            Ok(x) => ensure!(x == v, "{}: {} denotes {}, decoded as {}", e.name, clip(&s), v.show(), x.show()),
            Err(x) => return fail(format!("{}: {} denotes {}, rejected: {}", e.name, clip(&s), v.show(), x.msg)),
        }
        Ok(())
    };
    let (es2, es3) = (es.clone(), es.clone());
    vec![
        Sub::new("comments", 40_000, 1_500_000, move |src, ctx| run(&es, src, ctx, Space::Comments, false)),
        Sub::new("standard", 40_000, 1_500_000, move |src, ctx| run(&es2, src, ctx, Space::White, false)),
        Sub::new("large", 25, 6_000, move |src, ctx| run(&es3, src, ctx, Space::Comments, true)),
    ]
}
/// White space and comments that mean nothing, a lot of it.
pub fn long_gap(src: &mut Src, comments: bool) -> String {
    let n = gen::big(src);
    let mut r = Src::random(src.bits(), None);
    let r = &mut r;
    let text = |r: &mut Src, n: usize| -> String {
        (0..n).map(|_| gen::ch(r)).filter(|c| !matches!(c, '\n' | '\r' | '\0' | '*' | '/')).collect()
    };
    match src.below(if comments { 8 } else { 4 }) {
        0 => "\n".repeat(n),
        1 => " ".repeat(n),
        2 => "\r\n".repeat(n / 2 + 1),
        3 => (0..n).map(|_| *r.pick(&[' ', '\t', '\n', '\r'])).collect(),
        4 => format!("//{}\n", text(r, n)),
        5 => format!("/*{}*/", text(r, n)),
        6 => "/**/".repeat(n / 4 + 1),
        _ => (0..n / 12 + 1).map(|_| *r.pick(&["/* x */", "// y\n", "\n", " ", "/***/", "/* // \n*/"])).collect(),
    }
}

/// Characters no token starts with.
pub fn illegal_char(src: &mut Src, json: bool) -> char {
    if json && src.chance(1, 8) {
        return *src.pick(&['é', '٣', 'ß']);
    }
    let a: &[char] = &['@', '#', '$', '%', '&', '*', ';', '<', '=', '>', '?', '^', '~', '|', '`', '!', '\\', '\u{a0}', '\u{feff}', '\u{2028}', '😀', '\u{1}', '\u{7f}', '\u{b}', '\u{c}', '€'];
    if json && src.chance(1, 4) {
        *src.pick(&['(', ')', '\'', '.'])
    } else {
        *src.pick(a)
    }
}
/// Position (line, column) of the first character of `s` at or after byte `at`, as characters read.
pub fn pos_of(s: &str, at: usize) -> (usize, usize) {
    let p = &s[..at];
    let line = p.matches('\n').count();
    let col = match p.rfind('\n') {
        Some(i) => p[i + 1..].chars().count(),
        None => p.chars().count(),
    };
    (line, col)
}

/// A document that cannot denote a value of the type: (entry, text, byte where it goes wrong, kind)
pub fn broken(es: &[Entry], src: &mut Src, json: bool) -> Option<(Entry, String, &'static str)> {
    let fmt = fmt_of(json);
    let e = *src.pick(es);
    let ty = (e.ty)();
    let mut v = gen::value(src, ty, gen::TEXT);
    let mut n = build(src, &mut v, ty, fmt, LOOSE);
    let mut t = vec![];
    let how;
    match src.below(9) {
        0..=3 => {
            how = break_tree(src, &mut n, fmt)?;
            flatten(src, &n, true, &mut t);
        }
        4..=7 => {
            flatten(src, &n, true, &mut t);
            how = break_toks(src, &mut t, fmt)?;
        }
        _ => {
            flatten(src, &n, true, &mut t);
            let sp = *src.pick(&[Space::Tight, Space::White, Space::Comments]);
            let (s, at) = join(src, &t, sp);
            let i = src.below(at.len());
            let mut o = s.clone();
            how = match src.below(3) {
                0 => {
                    let c = illegal_char(src, json);
                    if c == '.' && o[..at[i].0].ends_with(|c: char| c.is_ascii_digit()) {
                        return None;
                    }
                    o.insert(at[i].0, c);
                    "illegal character"
                }
                1 => {
                    if json {
                        o.insert_str(at[i].0, src.pick::<&str>(&[" nul ", " True ", " nan ", " Infinity ", " x ", " nulll ", " tru ", " / ", " - ", " 1e ", " -e5 "]));
                    } else {
                        o.insert_str(at[i].0, src.pick::<&str>(&[" / ", " - ", " 1e ", " -e5 ", " 'ab' ", " . "]));
                    }
                    "bad token"
                }
                _ => {
                    o.insert_str(at[i].0, src.pick::<&str>(&[" /* ", " /* * / ", "/*/", " //"]));
                    if o[at[i].0..].starts_with(" //") {
                        // swallows the rest of the line
                        if o[at[i].0..].contains('\n') {
                            return None;
                        }
                    } else if o[at[i].0..].contains("*/") {
                        return None;
                    }
                    "unterminated comment"
                }
            };
            return Some((e, o, how));
        }
    }
    let sp = *src.pick(&[Space::White, Space::Tight, Space::Comments]);
    let (s, _) = join(src, &t, sp);
    Some((e, s, how))
}

/// A document cut short inside the value: (entry, text, length of the prefix)
pub fn cut(es: &[Entry], src: &mut Src, json: bool, o: Opts) -> Option<(Entry, String, usize)> {
    let fmt = fmt_of(json);
    let e = *src.pick(es);
    let ty = (e.ty)();
    let mut v = gen::value(src, ty, gen::TEXT);
    let n = build(src, &mut v, ty, fmt, o);
    let mut t = vec![];
    flatten(src, &n, true, &mut t);
    let sp = *src.pick(&[Space::White, Space::Tight, Space::Comments]);
    let (s, at) = join(src, &t, sp);
    let (la, lb) = *at.last().unwrap();
    let last = &s[la..lb];
    // only where what is left cannot be a complete value
    let end = if last.ends_with(['"', ')', ']', '}']) { lb } else { la };
    // a bare name is complete at any length only if it is another name: cut before it
    let mut c = if end == 0 { 0 } else { src.below(end) };
    while !s.is_char_boundary(c) {
        c -= 1
    }
    // part of a RON variant's name may be another's
    let open = at.iter().find(|(a, _)| s[*a..].starts_with(['"', '(', '[', '{'])).map_or(0, |x| x.0);
    if !json && c <= open && s[..c].ends_with(crate::text::in_word) {
        return None;
    }
    Some((e, s, c))
}

pub fn malformed(reg: Reg, json: bool) -> Vec<Sub> {
    let es = entries(reg, json);
    let (e1, e2, e3, e4, e5) = (es.clone(), es.clone(), es.clone(), es.clone(), es);
    vec![
        Sub::new("broken", 80_000, 3_000_000, move |src, ctx| {
            let Some((e, s, how)) = broken(&e1, src, json) else { return Ok(()) };
            ctx.eval();
            ctx.nontrivial(&key(&e, &s));
            ctx.label(how);
            ctx.sample(|| format!("{}: {} ({})", e.name, clip(&s), how));
            let (r, _) = capped((1 << 20) + s.len() * (256 + 16 * e.size), || de(&e, json, &s));
            match r {
                Ok(x) => fail(format!("{}: {} ({}) decodes as {}", e.name, clip(&s), how, x.show())),
                Err(_) => Ok(()),
            }
        }),
        Sub::new("cut", 40_000, 1_500_000, move |src, ctx| {
            let Some((e, s, c)) = cut(&e2, src, json, LOOSE) else { return Ok(()) };
            let s = &s[..c];
            ctx.eval();
            ctx.nontrivial(&key(&e, s));
            ctx.sample(|| format!("{}: {}", e.name, clip(s)));
            let (r, _) = capped((1 << 20) + s.len() * (256 + 16 * e.size), || de(&e, json, s));
            match r {
                Ok(x) => fail(format!("{}: {}, cut short, decodes as {}", e.name, clip(s), x.show())),
                Err(_) => Ok(()),
            }
        }),
        Sub::new("soup", 60_000, 2_500_000, move |src, ctx| {
            let e = src.pick(&e3);
            let s = soup(src, json);
            ctx.eval();
            ctx.nontrivial(&key(e, &s));
            ctx.sample(|| format!("{}: {}", e.name, clip(&s)));
            let (_, _) = capped((1 << 20) + s.len() * (256 + 16 * e.size), || de(e, json, &s));
            Ok(())
        }),
        Sub::new("edits", 60_000, 2_500_000, move |src, ctx| {
            let e = src.pick(&e4);
            let ty = (e.ty)();
            let mut v = gen::value(src, ty, gen::TEXT);
            let n = build(src, &mut v, ty, fmt_of(json), LOOSE);
            let mut t = vec![];
            flatten(src, &n, true, &mut t);
            let (s, _) = join(src, &t, Space::Comments);
            let mut c: Vec<char> = s.chars().collect();
            for _ in 0..src.range(1, 5) {
                let i = src.below(c.len() + 1);
                match src.below(5) {
                    0 if i < c.len() => {
                        c.remove(i);
                    }
                    1 if i < c.len() => {
                        let j = (i + src.range(1, 8)).min(c.len());
                        c.drain(i..j);
                    }
                    2 if i < c.len() => {
                        let j = (i + src.range(1, 12)).min(c.len());
                        let d: Vec<char> = c[i..j].to_vec();
                        let at = src.below(c.len() + 1);
                        c.splice(at..at, d);
                    }
                    3 if i < c.len() => c[i] = odd(src),
                    _ => c.insert(i, odd(src)),
                }
            }
            let s: String = c.into_iter().collect();
            ctx.eval();
            ctx.nontrivial(&key(e, &s));
            let (_, _) = capped((1 << 20) + s.len() * (256 + 16 * e.size), || de(e, json, &s));
            Ok(())
        }),
        Sub::new("long", 60, 600, move |src, ctx| {
            let e = *src.pick(&e5);
            // (long enough for anything that takes the square of the time to run out of it)
            let n = 1 + if src.chance(1, 6) { 1_500_000 + src.below(2_500_000) } else { src.below(300_000) };
            let s = if src.chance(1, 3) { long(src, json, n) } else { stretched(src, &e, json, n) };
            ctx.eval();
            ctx.nontrivial(&key(&e, &format!("{} {}", s.len(), s.chars().take(12).collect::<String>())));
            ctx.sample(|| format!("{}: {} bytes starting {:?}", e.name, s.len(), s.chars().take(20).collect::<String>()));
            // an ordinary stack must do
            let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
                let (r, _) = capped((4 << 20) + s.len() * (256 + 16 * e.size), || de(&e, json, &s).map(|_| ()));
                let _ = r;
            });
            match h.unwrap().join() {
                Ok(()) => Ok(()),
                Err(_) => fail(format!("{}: panic on a long input", e.name)),
            }
        }),
    ]
}
fn odd(src: &mut Src) -> char {
    if src.chance(1, 4) {
        gen::ch(src)
    } else {
        *src.pick(&['"', '\\', '{', '}', '[', ']', '(', ')', ',', ':', '/', '*', '-', '+', '.', 'e', '0', '9', 'n', 'u', '\'', '\n', '\0', ' '])
    }
}
fn soup(src: &mut Src, json: bool) -> String {
    let toks: &[&str] = &[
        "{", "}", "[", "]", "(", ")", ",", ":", "\"", "\"\"", "\"a\"", "\"secs\"", "\"nanos\"", "null", "None", "true", "false", "0", "1", "-1", "1.5", "1e5", "-", "+", ".",
        "/", "//", "/*", "*/", "\\", "\\u", "\\ud800", "'", "'a'", "'\\", "A", "_", "e", "\n", " ", "\t", "\0", "é", "99999999999999999999", "18446744073709551615", "-9223372036854775808",
        "a:", "\"a\":", "{\"a\":", "[[", "]]", "}}", "{{", "1e", "1e+", "0x10", "\"\\", "\u{feff}", "#", "1e999999999", "-0", "00", "Some(", "nulll", "tru",
    ];
    let n = src.range(0, 14);
    let mut s = String::new();
    for _ in 0..n {
        if src.chance(1, 10) {
            s.push(gen::ch(src))
        } else {
            s.push_str(src.pick::<&str>(toks))
        }
        if src.chance(1, 5) {
            s.push(' ')
        }
    }
    let _ = json;
    s
}
/// A document of the type with one part of it made very long.
fn stretched(src: &mut Src, e: &Entry, json: bool, n: usize) -> String {
    let ty = (e.ty)();
    let mut v = gen::value(src, ty, gen::TEXT);
    let d = build(src, &mut v, ty, fmt_of(json), SPELL);
    let mut t = vec![];
    flatten(src, &d, false, &mut t);
    let (mut s, at) = join(src, &t, Space::Tight);
    let fill = |src: &mut Src, units: &[&str]| -> String {
        let u = *src.pick(units);
        u.repeat(n / u.len() + 1)
    };
    let open = |x: &str| matches!(x, "[" | "{" | "(");
    let close = |x: &str| matches!(x, "]" | "}" | ")");
    let k = src.below(8);
    if k < 3 {
        // an element or member over and over
        let c: Vec<usize> = (0..t.len()).filter(|&i| open(&t[i].s) && i + 1 < t.len() && !close(&t[i + 1].s)).collect();
        if !c.is_empty() {
            let i = *src.pick(&c) + 1;
            let (mut j, mut depth) = (i, 0);
            while j < t.len() && !(depth == 0 && (t[j].s == "," || close(&t[j].s))) {
                depth += open(&t[j].s) as usize;
                depth -= close(&t[j].s) as usize;
                j += 1;
            }
            let x = format!("{},", &s[at[i].0..at[j - 1].1]);
            let many = if src.below(3) == 0 && x.starts_with('"') && x.contains(':') {
                // members of other names
                (0..n / 12 + 1).map(|i| format!("\"zz{}\":1,", i)).collect()
            } else {
                x.repeat(n / x.len() + 1)
            };
            s.insert_str(at[i].0, &many);
            return s;
        }
    }
    if k < 6 {
        // a string, number or word
        let c: Vec<usize> = (0..t.len()).filter(|&i| t[i].s.len() > 1 && t[i].s.starts_with('"') || t[i].s.starts_with(|c: char| c.is_ascii_alphanumeric())).collect();
        if !c.is_empty() {
            let i = *src.pick(&c);
            let x = if t[i].s.starts_with('"') {
                fill(src, &["x", "é", "\\n", "\\u0041", "\\\\", " ", "\\ud83d\\ude00", "/*", "\\\""])
            } else {
                fill(src, &["0", "9", "1234567890", "a", "_"])
            };
            s.insert_str(at[i].0 + 1, &x);
            return s;
        }
    }
    let i = src.below(at.len() + 1);
    let i = if i < at.len() { at[i].0 } else { s.len() };
    let x = match src.below(3) {
        0 => format!("//{}\n", fill(src, &["x", "*/", "é", "/"])),
        1 => format!("/*{}*/", fill(src, &["x", "*", "é", "\n", "* /", "/"])),
        _ => fill(src, &[" ", "\n", "\r\n", "\t", "/**/", "//\n", "/* x */ "]),
    };
    s.insert_str(i, &x);
    s
}
fn long(src: &mut Src, json: bool, n: usize) -> String {
    let unit: &[&str] = &[
        " ", "\n", "/**/", "//\n", "// x\n", "/* * */ ", "[", "{", "(", "\"a\":", "1", "0", "\\", "\"", "-", ".", "é", "[]", "1,", "\"x\",", "null,", ":", ",", "/*", "//", "{\"a\":", "[[", "\\u0041", "a", "/", "*",
    ];
    let u = *src.pick(unit);
    let head = *src.pick(&["", "[", "{\"zz\":", "\"", "[1,", "(", "{", "-", "1.", "1e", "{\"zz\":[", "/*"]);
    let tail = *src.pick(&["", "]", "}", "\"", "1]", ")", "*/1"]);
    let _ = json;
    // deep nesting of recursive types is a separate matter: these runs only nest where nothing is decoded
    let n = n / u.len().max(1) + 1;
    format!("{}{}{}", head, u.repeat(n), tail)
}
