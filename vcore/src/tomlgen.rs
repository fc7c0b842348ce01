//! TOML documents of the supported subset, together with what they say.
use crate::engine::Src;
use crate::gen;
use nanoserde::Toml;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub enum TV {
    Str(String),
    Bool(bool),
    /// bits; of what is not a number the sign alone counts
    Num(u64),
    Date(String),
    Arr(Vec<TV>),
    Tables(Vec<BTreeMap<String, TV>>),
}
pub type Doc = BTreeMap<String, TV>;
pub fn bits(n: f64) -> u64 {
    if n.is_nan() {
        0x7ff8 << 48 | n.to_bits() & 1 << 63
    } else {
        n.to_bits()
    }
}
/// Read through the accessors, which must agree with the value itself.
pub fn of(t: &Toml) -> TV {
    match t {
        Toml::Str(s) => {
            assert_eq!(t.str(), s, "str()");
            TV::Str(s.clone())
        }
        Toml::Bool(b) => {
            assert_eq!(t.boolean(), *b, "boolean()");
            TV::Bool(*b)
        }
        Toml::Num(n) => {
            assert_eq!(t.num().to_bits(), n.to_bits(), "num()");
            TV::Num(bits(*n))
        }
        Toml::Date(s) => {
            assert_eq!(&t.date(), s, "date()");
            TV::Date(s.clone())
        }
        Toml::SimpleArray(a) => {
            assert_eq!(t.simple_arr().len(), a.len(), "simple_arr()");
            TV::Arr(t.simple_arr().iter().map(of).collect())
        }
        Toml::Array(a) => {
            assert_eq!(t.arr().len(), a.len(), "arr()");
            for i in 0..a.len() {
                assert_eq!(of_map(&t[i]), of_map(&t.arr()[i]), "[{}]", i)
            }
            TV::Tables(a.iter().map(of_map).collect())
        }
    }
}
pub fn of_map(m: &BTreeMap<String, Toml>) -> Doc {
    m.iter().map(|(k, v)| (k.clone(), of(v))).collect()
}

pub struct Made {
    pub text: String,
    pub want: Doc,
    /// bytes where a statement may start (start of a line, or the end after a newline)
    pub starts: Vec<usize>,
}

/// the characters beyond ASCII that a bare key may have (the grammar of TOML 1.1)
const BARE: [(u32, u32); 18] = [
    (0xb2, 0xb2), (0xb3, 0xb3), (0xb9, 0xb9), (0xbc, 0xbe), (0xc0, 0xd6), (0xd8, 0xf6), (0xf8, 0x37d), (0x37f, 0x1fff), (0x37f, 0x1fff),
    (0x200c, 0x200d), (0x203f, 0x2040), (0x2070, 0x218f), (0x2460, 0x24ff), (0x2c00, 0x2fef), (0x3001, 0xd7ff), (0xf900, 0xfdcf),
    (0xfdf0, 0xfffd), (0x10000, 0xeffff),
];
fn barechar(src: &mut Src) -> char {
    let (lo, hi) = *src.pick(&BARE);
    let n = (hi - lo + 1) as usize;
    let c = match src.below(6) {
        0 => lo,
        1 => hi,
        2 => lo + src.below(n.min(16)) as u32,
        3 => hi - src.below(n.min(16)) as u32,
        _ => lo + src.below(n) as u32,
    };
    char::from_u32(c).unwrap_or('é')
}
fn word(src: &mut Src, first: bool) -> String {
    let n = match src.below(8) {
        0..=5 => src.range(1, 6),
        6 => src.range(1, 2),
        _ => src.range(6, 60),
    };
    let mut s = String::new();
    for i in 0..n {
        let c = match src.below(13) {
            0..=6 => (b'a' + src.below(26) as u8) as char,
            7 => (b'A' + src.below(26) as u8) as char,
            8 => '_',
            9 if i > 0 || !first => *src.pick(&['-', '0', '1', '9', '7', '-']),
            10 if !first || i > 0 => (b'0' + src.below(10) as u8) as char,
            11 => *src.pick(&['é', 'ß', '中', 'ö', '½', '²', 'ǅ', '𝒳', '\u{200d}', 'ﬀ', 'Ω', '\u{37f}', '\u{2070}', '\u{3001}', '\u{10000}']),
            _ if src.chance(1, 3) => barechar(src),
            _ => 'k',
        };
        s.push(c)
    }
    s
}
fn bare(src: &mut Src) -> String {
    if src.chance(1, 14) {
        return src.pick(&["true", "false", "inf", "nan", "e", "E5", "truex", "nan-1", "_", "_1", "T", "inf2", "a-b", "u", "Date"]).to_string();
    }
    if src.chance(1, 14) {
        return src
            .pick(&["0", "7", "007", "-0", "00", "1_000", "1_", "1e5", "1E-5", "0x1F", "0b1", "1979-05-27", "1979-05-27T07", "2024-", "-", "--", "-1", "-_x", "-inf",
                "-nan", "-n", "-i", "-in", "1a", "1_a", "9-a", "99999999999999999999", "-99999999999999999999", "18446744073709551615", "9223372036854775808", "-é", "5½"])
            .to_string();
    }
    let first = !src.chance(1, 8);
    word(src, first)
}
fn basic(src: &mut Src, s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        let must = c == '"' || c == '\\' || ((c as u32) < 0x20 && c != '\t') || c as u32 == 0x7f;
        if must || src.chance(1, 8) {
            o.push_str(&escaped(src, c))
        } else {
            o.push(c)
        }
    }
    o.push('"');
    o
}
fn escaped(src: &mut Src, c: char) -> String {
    let short = match c {
        '\u{8}' => Some('b'),
        '\t' => Some('t'),
        '\n' => Some('n'),
        '\u{c}' => Some('f'),
        '\r' => Some('r'),
        '"' => Some('"'),
        '\\' => Some('\\'),
        _ => None,
    };
    if let (Some(x), true) = (short, src.below(3) > 0) {
        return format!("\\{}", x);
    }
    let v = c as u32;
    if v < 0x10000 && src.below(3) > 0 {
        if src.below(2) == 0 {
            format!("\\u{:04x}", v)
        } else {
            format!("\\u{:04X}", v)
        }
    } else if src.below(2) == 0 {
        format!("\\U{:08x}", v)
    } else {
        format!("\\U{:08X}", v)
    }
}
fn triple(src: &mut Src, s: &str) -> String {
    let mut o = String::from("\"\"\"");
    if s.starts_with('\n') || src.chance(1, 3) {
        o.push_str(src.pick::<&str>(&["\n", "\r\n"]))
    }
    let cs: Vec<char> = s.chars().collect();
    let mut quotes = 0; // raw quotes in a row
    for (i, &c) in cs.iter().enumerate() {
        let raw_ok = match c {
            '"' => quotes < 2,
            '\\' => false,
            '\n' | '\t' => true,
            '\r' => false,
            c => c as u32 >= 0x20 && c as u32 != 0x7f,
        };
        // the closing quotes may be preceded by at most two more, which needs no escaping
        let _ = i;
        if raw_ok && !src.chance(1, 8) {
            o.push(c);
            quotes = if c == '"' { quotes + 1 } else { 0 };
        } else {
            o.push_str(&escaped(src, c));
            quotes = 0
        }
    }
    o.push_str("\"\"\"");
    o
}
fn string(src: &mut Src) -> (String, String) {
    let mut s = gen::string(src).replace('\0', "0");
    if src.chance(1, 6) {
        s.push_str(src.pick::<&str>(&["#", "=", "[a]", "\n", "\"", "\"\"", "\\", "'", ",", "]", "\n\n", "\"\n", " # x", "\t", "\\n"]))
    }
    let t = if src.chance(1, 3) { triple(src, &s) } else { basic(src, &s) };
    (t, s)
}
fn digits(src: &mut Src, d: &str) -> String {
    // underscores between digits
    let mut o = String::new();
    let on = src.chance(1, 3);
    for (i, c) in d.chars().enumerate() {
        if on && i > 0 && src.chance(1, 3) {
            o.push('_')
        }
        o.push(c)
    }
    o
}
fn number(src: &mut Src) -> (String, f64) {
    let sign = *src.pick(&["", "", "", "-", "+"]);
    let int = |src: &mut Src| -> u64 {
        match src.below(4) {
            0 => src.below(10) as u64,
            1 => src.below(100_000) as u64,
            2 => (gen::uint(src, 64) as u64) & i64::MAX as u64,
            _ => i64::MAX as u64 - src.below(3) as u64,
        }
    };
    if src.below(2) == 0 {
        let n = int(src);
        let d = n.to_string();
        let t = format!("{}{}", sign, digits(src, &d));
        (t, if sign == "-" { -(n as i64) as f64 } else { n as f64 })
    } else {
        let d = int(src).to_string();
        let mut f = String::new();
        for _ in 0..match src.below(5) {
            0..=3 => src.range(1, 5),
            _ => src.range(5, 40),
        } {
            f.push((b'0' + src.below(10) as u8) as char)
        }
        let v: f64 = format!("{}{}.{}", if sign == "-" { "-" } else { "" }, d, f).parse().unwrap();
        (format!("{}{}.{}", sign, digits(src, &d), digits(src, &f)), v)
    }
}
fn date(src: &mut Src) -> String {
    let mut s = format!("{:04}-{:02}-{:02}", src.below(10000), 1 + src.below(12), 1 + src.below(28));
    if src.chance(1, 3) {
        s.push_str(&format!("T{:02}:{:02}:{:02}", src.below(24), src.below(60), src.below(60)))
    }
    s
}
fn blank(src: &mut Src, multi: bool, nl: &str) -> String {
    let mut o = String::new();
    for _ in 0..src.below(3) {
        match src.below(if multi { 5 } else { 2 }) {
            0 => o.push(' '),
            1 => o.push_str(src.pick::<&str>(&["\t", "  "])),
            2 | 3 => o.push_str(nl),
            _ => {
                o.push_str(&comment(src));
                o.push_str(nl)
            }
        }
    }
    o
}
fn comment(src: &mut Src) -> String {
    let mut s = String::from("#");
    if src.below(2) == 0 {
        s.push_str(src.pick::<&str>(&["", " x", " a = 1", " [t]", "\"", " \"\"\"", " ]", ", 1", "#", " é 中", "\\", " '", "[[", "=", " }{"]))
    } else {
        for _ in 0..src.below(20) {
            let c = gen::ch(src);
            if c as u32 >= 0x20 && c as u32 != 0x7f {
                s.push(c)
            }
        }
    }
    s
}
fn value(src: &mut Src, depth: usize, nl: &str) -> (String, TV) {
    match src.below(if depth == 0 { 9 } else { 12 }) {
        0..=2 => {
            let (t, s) = string(src);
            (t, TV::Str(s))
        }
        3 | 4 => {
            let (t, n) = number(src);
            (t, TV::Num(n.to_bits()))
        }
        5 => {
            let b = src.below(2) == 1;
            (b.to_string(), TV::Bool(b))
        }
        6 => {
            let s = *src.pick(&["inf", "+inf", "-inf"]);
            (s.into(), TV::Num(if s.starts_with('-') { f64::NEG_INFINITY } else { f64::INFINITY }.to_bits()))
        }
        7 => {
            let s = *src.pick(&["nan", "+nan", "-nan"]);
            (s.into(), TV::Num(0x7ff8 << 48 | (s.starts_with('-') as u64) << 63))
        }
        8 => {
            let s = date(src);
            (s.clone(), TV::Date(s))
        }
        _ => {
            let n = match src.below(6) {
                0 => 0,
                1..=4 => src.range(1, 4),
                _ => src.range(4, 20),
            };
            let mut o = String::from("[");
            let mut vs = vec![];
            for i in 0..n {
                o.push_str(&blank(src, true, nl));
                let (t, v) = value(src, depth - 1, nl);
                o.push_str(&t);
                vs.push(v);
                o.push_str(&blank(src, true, nl));
                if i + 1 < n || src.chance(1, 3) {
                    o.push(',')
                }
            }
            o.push_str(&blank(src, true, nl));
            o.push(']');
            (o, TV::Arr(vs))
        }
    }
}
struct B {
    out: String,
    want: Doc,
    starts: Vec<usize>,
    /// full dotted names in use: keys, tables, arrays of tables
    used: BTreeSet<String>,
    nl: &'static str,
}
impl B {
    /// Names may not be prefixes of one another: each means one thing.
    fn free(&self, used: &BTreeSet<String>, k: &str) -> bool {
        !used.iter().any(|u| {
            u == k || u.strip_prefix(k).is_some_and(|r| r.starts_with('.')) || k.strip_prefix(u.as_str()).is_some_and(|r| r.starts_with('.'))
        })
    }
    fn line(&mut self, src: &mut Src, s: &str, last: bool) {
        self.out.push_str(&blank(src, false, ""));
        self.out.push_str(s);
        self.out.push_str(&blank(src, false, ""));
        if src.chance(1, 4) {
            let c = comment(src);
            self.out.push_str(&c);
        }
        if !last || src.chance(1, 2) {
            self.out.push_str(self.nl);
            self.starts.push(self.out.len());
        }
    }
    fn filler(&mut self, src: &mut Src) {
        for _ in 0..src.below(3) {
            self.out.push_str(&blank(src, false, ""));
            if src.below(2) == 0 {
                let c = comment(src);
                self.out.push_str(&c);
            }
            self.out.push_str(self.nl);
            self.starts.push(self.out.len());
        }
    }
}
fn key(src: &mut Src) -> (String, String) {
    match src.below(6) {
        0..=2 => {
            let k = bare(src);
            (k.clone(), k)
        }
        3 => {
            let s = gen::string(src).replace('\0', "").replace('.', "");
            (basic(src, &s), s)
        }
        _ => {
            let mut k = bare(src);
            let most = if src.chance(1, 10) { 12 } else { 3 };
            for _ in 0..src.range(1, most) {
                k.push('.');
                k.push_str(&bare(src))
            }
            (k.clone(), k)
        }
    }
}
pub fn document(src: &mut Src) -> Made {
    let nl = if src.chance(1, 4) { "\r\n" } else { "\n" };
    let mut b = B { out: String::new(), want: Doc::new(), starts: vec![0], used: BTreeSet::new(), nl };
    let nsec = src.below(5);
    let mut arrays: Vec<String> = vec![];
    for sec in 0..=nsec {
        b.filler(src);
        // header
        let mut scope = String::new();
        let mut element: Option<String> = None;
        if sec > 0 {
            if src.below(2) == 0 {
                // [table]
                let (t, k) = match src.below(5) {
                    0 => {
                        let s = word(src, false).replace('.', "");
                        (basic(src, &s), s)
                    }
                    1 | 2 => {
                        let k = format!("{}.{}", bare(src), bare(src));
                        (k.clone(), k)
                    }
                    _ => {
                        let k = bare(src);
                        (k.clone(), k)
                    }
                };
                if !b.free(&b.used, &k) {
                    continue;
                }
                b.used.insert(k.clone());
                let h = format!("[{}{}{}]", blank(src, false, ""), t, blank(src, false, ""));
                b.line(src, &h, sec == nsec);
                scope = k;
            } else {
                let again = !arrays.is_empty() && src.below(3) > 0;
                let k = if again {
                    arrays[src.below(arrays.len())].clone()
                } else {
                    let k = if src.chance(1, 3) { format!("{}.{}", bare(src), bare(src)) } else { bare(src) };
                    if !b.free(&b.used, &k) {
                        continue;
                    }
                    b.used.insert(k.clone());
                    arrays.push(k.clone());
                    k
                };
                let t = if !k.contains('.') && src.chance(1, 6) { basic(src, &k) } else { k.clone() };
                let h = format!("[[{}{}{}]]", blank(src, false, ""), t, blank(src, false, ""));
                b.line(src, &h, sec == nsec);
                match b.want.entry(k.clone()).or_insert_with(|| TV::Tables(vec![])) {
                    TV::Tables(v) => v.push(Doc::new()),
                    _ => unreachable!(),
                }
                element = Some(k)
            }
        }
        if !b.out.is_empty() && !b.out.ends_with('\n') {
            break;
        }
        let mut local: BTreeSet<String> = BTreeSet::new();
        let nk = src.below(6);
        for i in 0..nk {
            let (t, k) = key(src);
            let full = if scope.is_empty() { k.clone() } else { format!("{}.{}", scope, k) };
            let (vt, v) = {
                let d = src.below(4);
                value(src, d, nl)
            };
            if !b.free(&local, &k) {
                continue;
            }
            if element.is_none() && scope.is_empty() {
                if !b.free(&b.used, &full) {
                    continue;
                }
                b.used.insert(full.clone());
            }
            local.insert(k.clone());
            let s = format!("{}{}={}{}", t, blank(src, false, ""), blank(src, false, ""), vt);
            b.line(src, &s, sec == nsec && i + 1 == nk);
            match &element {
                Some(a) => match b.want.get_mut(a).unwrap() {
                    TV::Tables(els) => {
                        els.last_mut().unwrap().insert(k, v);
                    }
                    _ => unreachable!(),
                },
                None => {
                    b.want.insert(full, v);
                }
            }
        }
        if !b.out.is_empty() && !b.out.ends_with('\n') {
            break;
        }
        b.filler(src);
    }
    Made { text: b.out, want: b.want, starts: b.starts }
}
/// A document with something of great length in it.
pub fn large(src: &mut Src) -> Made {
    let mut d = document(src);
    let n = gen::big(src);
    let mut r = Src::random(src.bits(), None);
    let r = &mut r;
    let nl = if src.chance(1, 4) { "\r\n" } else { "\n" };
    let mut o = String::new();
    let name = "zzbig_zz0";
    let mut at_end = false;
    match src.below(12) {
        0 => {
            let s = gen::big_string(src, n).replace('\0', "0");
            let t = if src.below(2) == 0 { triple(r, &s) } else { basic(r, &s) };
            o = format!("{} = {}{}", name, t, nl);
            d.want.insert(name.into(), TV::Str(s));
        }
        1 => {
            let k = format!("{}{}", name, "k".repeat(n));
            o = format!("{} = 1{}", k, nl);
            d.want.insert(k, TV::Num(1f64.to_bits()));
        }
        2 => {
            let k = format!("{}{}", name, gen::big_string(src, n).replace(['\0', '.'], ""));
            o = format!("{} = true{}", basic(r, &k), nl);
            d.want.insert(k, TV::Bool(true));
        }
        3 => {
            let k = format!("{}{}", name, ".k".repeat(n / 2));
            o = format!("{} = 1{}", k, nl);
            d.want.insert(k, TV::Num(1f64.to_bits()));
        }
        4 | 5 => {
            let n = n / 2 + 1;
            let mut vs = vec![];
            o = format!("{} = [", name);
            for i in 0..n {
                let (t, v) = value(r, r_depth(i), nl);
                o.push_str(&blank(r, true, nl));
                o.push_str(&t);
                vs.push(v);
                if i + 1 < n || src.chance(1, 3) {
                    o.push(',')
                }
            }
            o.push(']');
            o.push_str(nl);
            d.want.insert(name.into(), TV::Arr(vs));
        }
        6 => {
            for i in 0..n / 4 + 1 {
                let (t, v) = value(r, 0, nl);
                o.push_str(&format!("{}_{} = {}{}", name, i, t, nl));
                d.want.insert(format!("{}_{}", name, i), v);
            }
        }
        7 => {
            at_end = true;
            for i in 0..n / 4 + 1 {
                let (t, v) = value(r, 0, nl);
                o.push_str(&format!("[{}_{}]{}x = {}{}", name, i, nl, t, nl));
                d.want.insert(format!("{}_{}.x", name, i), v);
            }
        }
        8 => {
            at_end = true;
            let mut els = vec![];
            for _ in 0..n / 4 + 1 {
                o.push_str(&format!("[[{}]]{}", name, nl));
                let mut e = Doc::new();
                for k in ["x", "y"] {
                    if r.below(3) > 0 {
                        let (t, v) = value(r, 0, nl);
                        o.push_str(&format!("{} = {}{}", k, t, nl));
                        e.insert(k.into(), v);
                    }
                }
                els.push(e);
            }
            d.want.insert(name.into(), TV::Tables(els));
        }
        9 => {
            let c: String = gen::big_string(src, n).chars().filter(|c| *c as u32 >= 0x20 && *c as u32 != 0x7f).collect();
            o = format!("#{}{}{} = 1{}", c, nl, name, nl);
            d.want.insert(name.into(), TV::Num(1f64.to_bits()));
        }
        10 => {
            o = if src.below(2) == 0 { nl.repeat(n) } else { format!("{}#{}", " ".repeat(n), nl) };
            o.push_str(&format!("{} ={}false{}", name, "\t".repeat(n), nl));
            d.want.insert(name.into(), TV::Bool(false));
        }
        _ => {
            // many digits
            let f: String = (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect();
            let t = format!("{}.{}", r.below(1000), f);
            d.want.insert(name.into(), TV::Num(t.parse::<f64>().unwrap().to_bits()));
            o = format!("{} = {}{}", name, digits(r, &t).replace("_.", ".").replace("._", "."), nl);
        }
    }
    if at_end {
        if !d.text.is_empty() && !d.text.ends_with('\n') {
            d.text.push_str(nl)
        }
        d.text.push_str(&o)
    } else {
        d.text.insert_str(0, &o)
    }
    d.starts = vec![];
    d
}
fn r_depth(i: usize) -> usize {
    (i % 7 == 3) as usize
}
