//! Every character through JSON and RON strings.
use crate::engine::*;
use crate::ensure;
use crate::gen;
use crate::text::{self, J};
use crate::val::*;
use nanoserde::*;
use std::collections::BTreeMap;

trait Txt: Sized {
    fn w(&self, json: bool) -> String;
    fn r(s: &str, json: bool) -> Result<Self, String>;
}
impl<T: SerJson + DeJson + SerRon + DeRon> Txt for T {
    fn w(&self, json: bool) -> String {
        if json {
            self.serialize_json()
        } else {
            self.serialize_ron()
        }
    }
    fn r(s: &str, json: bool) -> Result<T, String> {
        if json {
            T::deserialize_json(s).map_err(|e| format!("{:?}", e))
        } else {
            T::deserialize_ron(s).map_err(|e| format!("{:?}", e))
        }
    }
}
fn nm(json: bool) -> &'static str {
    if json {
        "JSON"
    } else {
        "RON"
    }
}
fn same<T: Txt + PartialEq + std::fmt::Debug>(x: &T, json: bool) -> R {
    let s = x.w(json);
    if json {
        ensure!(!s.chars().any(|c| (c as u32) < 0x20), "{:?} in JSON is {:?}: raw control character", x, s);
    }
    match T::r(&s, json) {
        Ok(y) => ensure!(y == *x, "{:?} in {} is {:?}, which comes back as {:?}", x, nm(json), s, y),
        Err(m) => return fail(format!("{:?} in {} is {:?}, which is rejected: {}", x, nm(json), s, m)),
    }
    Ok(())
}
fn reads(doc: &str, want: &str, json: bool) -> R {
    match String::r(doc, json) {
        Ok(y) => ensure!(y == want, "{} string {} is {:?}, not {:?}", nm(json), doc, want, y),
        Err(m) => return fail(format!("{} string {} is rejected: {}", nm(json), doc, m)),
    }
    Ok(())
}
fn rejects(doc: &str, json: bool) -> R {
    match String::r(doc, json) {
        Ok(y) => fail(format!("{} string {} decodes as {:?}", nm(json), doc, y)),
        Err(_) => Ok(()),
    }
}
fn scalar(c: char) -> R {
    let one = c.to_string();
    let mid = format!("a{}b", c);
    let two = format!("{0}{0}", c);
    for json in [true, false] {
        same(&one, json)?;
        let v = vec![two.clone(), mid.clone()];
        same(&v, json)?;
        let m: BTreeMap<String, String> = [(one.clone(), mid.clone())].into();
        same(&m, json)?;
        // what other software reads
        let s = mid.w(json);
        match text::parse(&s, if json { Fmt::Json } else { Fmt::Ron }) {
            Ok(J::Str(t)) => ensure!(t == mid, "{:?} in {} is {:?}, which denotes {:?}", mid, nm(json), s, t),
            Ok(j) => return fail(format!("{:?} in {} is {:?}, which denotes {:?}", mid, nm(json), s, j)),
            Err(e) => return fail(format!("{:?} in {} is {:?}, which is no {} string: {}", mid, nm(json), s, nm(json), e)),
        }
        // as itself
        if c != '"' && c != '\\' && c != '\0' && (!json || c as u32 >= 0x20) {
            reads(&format!("\"a{}\"", c), &format!("a{}", c), json)?;
        }
        // escaped
        let mut u = [0u16; 2];
        let low: String = c.encode_utf16(&mut u).iter().map(|x| format!("\\u{:04x}", x)).collect();
        let up: String = u[..c.len_utf16()].iter().map(|x| format!("\\u{:04X}", x)).collect();
        reads(&format!("\"{}\"", low), &one, json)?;
        reads(&format!("\"a{}{}b\"", up, low), &format!("a{0}{0}b", c), json)?;
    }
    Ok(())
}
const BLOCK: usize = 1088;
pub fn subs() -> Vec<Sub> {
    vec![
        Sub::indexed("scalars", 1024, 1024, |src, ctx| {
            let b = src.below(1024);
            for k in 0..BLOCK {
                // spread over the range so that shards are alike; `k` is a choice that shrinking can lower
                if let Some(c) = char::from_u32((k * 1024 + b) as u32) {
                    ctx.eval();
                    ctx.nontrivial(&(c as u32).to_le_bytes());
                    scalar(c)?;
                }
            }
            ctx.label("exhaustive block of scalars");
            Ok(())
        }),
        Sub::indexed("escapes", 256, 256, |src, ctx| {
            let b = src.below(256);
            for k in 0..256 {
                let v = (k * 256 + b) as u32;
                ctx.eval();
                ctx.nontrivial(&(0x20000000 + v).to_le_bytes());
                let forms = [format!("\\u{:04x}", v), format!("\\u{:04X}", v), format!("\\u{:02X}{:02x}", v >> 8, v & 255)];
                for json in [true, false] {
                    for f in &forms {
                        match char::from_u32(v) {
                            Some(c) => {
                                reads(&format!("\"{}\"", f), &c.to_string(), json)?;
                                reads(&format!("\"x{}7\"", f), &format!("x{}7", c), json)?;
                            }
                            None => {
                                for tail in ["", "a", "\\n", "\\u0041", "\\ud800", "\\udbff", " ", "\\", "\\u", "\\ue000", "\\uffff", "é", "0000"] {
                                    rejects(&format!("\"{}{}\"", f, tail), json)?;
                                }
                                rejects(&format!("\"a{}", f), json)?;
                                // a low surrogate does not pair with a preceding one of its kind
                                if v >= 0xdc00 {
                                    rejects(&format!("\"{}\\ud83d\"", f), json)?;
                                    rejects(&format!("\"{}\\udc00\"", f), json)?;
                                    rejects(&format!("\"\\u0041{}\"", f), json)?;
                                    // reversed pair
                                    rejects(&format!("\"{}\\ud800\"", f), json)?;
                                }
                            }
                        }
                    }
                }
            }
            ctx.label("exhaustive block of \\u escapes");
            Ok(())
        }),
        Sub::new("bad-escapes", 60_000, 1_000_000, |src, ctx| {
            let json = src.below(2) == 0;
            let bad: &[char] = &['g', 'G', 'x', '+', '-', '_', ' ', '"', '\\', '/', '\n', '.', ':', '@', '`', 'é', '\u{ff10}', '\u{661}', '\u{1d7d8}', 'z', ',', '\u{2}', 'ａ'];
            let one = |src: &mut Src, v: u32| {
                let mut d: Vec<char> = format!("{:04x}", v).chars().collect();
                let at = src.below(4);
                let b = *src.pick(bad);
                match src.below(3) {
                    0 => d[at] = b,
                    1 => d.truncate(at),
                    _ => {
                        d.truncate(at);
                        d.push(b)
                    }
                }
                format!("\\u{}", d.into_iter().collect::<String>())
            };
            let e = match src.below(3) {
                0 => {
                    let v = src.below(0x10000) as u32;
                    one(src, v)
                }
                1 => {
                    let hi = 0xd800 + src.below(0x400) as u32;
                    let lo = 0xdc00 + src.below(0x400) as u32;
                    format!("\\u{:04x}{}", hi, one(src, lo))
                }
                _ => {
                    // a high surrogate and anything but a low one
                    let hi = 0xd800 + src.below(0x400) as u32;
                    let mut v = src.below(0x10000) as u32;
                    if (0xdc00..0xe000).contains(&v) {
                        v -= 0x400
                    }
                    match src.below(3) {
                        0 => format!("\\u{:04x}\\u{:04x}", hi, v),
                        1 => format!("\\u{:04x}\\n\\udc00", hi),
                        _ => format!("\\u{:04x} \\udc00", hi),
                    }
                }
            };
            // truncated digits followed by hex digits would be a longer valid escape
            let tail = *src.pick(&["", "g", " ", "\\n", "zz"]);
            let doc = format!("\"{}{}\"", e, tail);
            ctx.eval();
            ctx.nontrivial(doc.as_bytes());
            ctx.sample(|| doc.clone());
            rejects(&doc, json)?;
            let v = format!("[\"a\",{}]", doc);
            if let Ok(x) = Vec::<String>::r(&v, json) {
                return fail(format!("{} {} decodes as {:?}", nm(json), v, x));
            }
            let m = format!("{{{}:1}}", doc);
            if let Ok(x) = BTreeMap::<String, u8>::r(&m, json) {
                return fail(format!("{} {} decodes as {:?}", nm(json), m, x));
            }
            Ok(())
        }),
        Sub::new("mixtures", 60_000, 2_000_000, |src, ctx| {
            let n = src.below(20);
            let s: String = (0..n).map(|_| gen::ch(src)).collect();
            let t = gen::string(src);
            ctx.eval();
            if s.chars().any(|c| !c.is_ascii_alphanumeric()) {
                ctx.nontrivial(s.as_bytes())
            }
            ctx.sample(|| format!("{:?} {:?}", s, t));
            for json in [true, false] {
                same(&s, json)?;
                same(&vec![s.clone(), t.clone(), s.clone()], json)?;
                same(&Some(s.clone()), json)?;
                same(&(t.clone(), s.clone()), json)?;
                same(&[s.clone(), t.clone()], json)?;
                same(&BTreeMap::from([(s.clone(), vec![t.clone()]), (t.clone(), vec![s.clone()])]), json)?;
                let fmt = if json { Fmt::Json } else { Fmt::Ron };
                for _ in 0..2 {
                    let q = text::quote(src, &s, fmt, true);
                    reads(&q, &s, json)?;
                }
                let q = text::quote(src, &s, fmt, true);
                let doc = format!("{{{}:{}}}", q, text::quote(src, &t, fmt, true));
                match BTreeMap::<String, String>::r(&doc, json) {
                    Ok(m) => ensure!(m == BTreeMap::from([(s.clone(), t.clone())]), "{} {} is {:?}", nm(json), doc, m),
                    Err(e) => return fail(format!("{} {} is rejected: {}", nm(json), doc, e)),
                }
            }
            // str is written like String
            ensure!(s.as_str().serialize_json() == s.serialize_json(), "str and String differ in JSON: {:?}", s);
            Ok(())
        }),
    ]
}
