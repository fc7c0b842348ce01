//! JSON and RON documents as trees: building every spelling of a value, strict independent
//! parsers, interpretation of a parsed document as a value, and mutations that make it invalid.
use crate::engine::Src;
use crate::gen;
use crate::val::*;

#[derive(Clone)]
pub struct Node {
    /// the type this position is decoded into; None inside members nobody reads
    pub slot: Option<TyRef>,
    /// RON variant name before the bracket
    pub pre: String,
    pub k: NK,
}
#[derive(Clone)]
pub enum NK {
    Atom(String),
    List { open: char, items: Vec<Node>, fixed: bool, trail: bool },
    Obj { open: char, mems: Vec<Mem>, trail: bool, wrapper: bool },
}
#[derive(Clone)]
pub struct Mem {
    pub key: Node,
    pub val: Node,
    pub required: bool,
}

#[derive(Clone, Copy)]
pub struct Opts {
    /// random spellings of strings, numbers, None, member order
    pub spell: bool,
    /// leave out members that have a default
    pub omit: bool,
    /// add members nobody asked for (JSON)
    pub unknown: bool,
}
pub const PLAIN: Opts = Opts { spell: false, omit: false, unknown: false };
pub const SPELL: Opts = Opts { spell: true, omit: false, unknown: false };
pub const LOOSE: Opts = Opts { spell: true, omit: true, unknown: true };

fn hex4(src: &mut Src, spell: bool, v: u32) -> String {
    if spell && src.chance(1, 2) {
        format!("\\u{:04X}", v)
    } else if spell && src.chance(1, 3) {
        // mixed case
        let s = format!("{:04x}", v);
        let t: String = s.chars().map(|c| if src.below(2) == 0 { c } else { c.to_ascii_uppercase() }).collect();
        format!("\\u{}", t)
    } else {
        format!("\\u{:04x}", v)
    }
}
fn uescape(src: &mut Src, spell: bool, c: char) -> String {
    let v = c as u32;
    if v >= 0x10000 {
        let w = v - 0x10000;
        hex4(src, spell, 0xd800 + (w >> 10)) + &hex4(src, spell, 0xdc00 + (w & 0x3ff))
    } else {
        hex4(src, spell, v)
    }
}
pub fn quote(src: &mut Src, s: &str, fmt: Fmt, spell: bool) -> String {
    let mut o = String::from("\"");
    let mode = if spell { src.below(4) } else { 0 };
    for c in s.chars() {
        let must = match fmt {
            Fmt::Json => (c as u32) < 0x20 || c == '"' || c == '\\',
            _ => c == '"' || c == '\\' || c == '\0',
        };
        let short = match c {
            '"' => Some("\\\""),
            '\\' => Some("\\\\"),
            '\u{8}' => Some("\\b"),
            '\u{c}' => Some("\\f"),
            '\n' => Some("\\n"),
            '\r' => Some("\\r"),
            '\t' => Some("\\t"),
            '/' if fmt == Fmt::Json => Some("\\/"),
            '\0' if fmt == Fmt::Ron => Some("\\0"),
            _ => None,
        };
        let how = match mode {
            0 => 0,
            1 => src.below(3),
            2 => 2,
            _ => {
                if src.chance(1, 6) {
                    1 + src.below(2)
                } else {
                    0
                }
            }
        };
        match how {
            0 if !must => o.push(c),
            0 | 1 => match short {
                Some(x) => o.push_str(x),
                None if must => o.push_str(&uescape(src, spell, c)),
                None => o.push(c),
            },
            _ => o.push_str(&uescape(src, spell, c)),
        }
    }
    o.push('"');
    o
}

/// Digits and exponent of the shortest decimal: (negative, digits, exponent of the first digit)
fn digits_of(s: &str) -> (bool, String, i64) {
    let (neg, s) = match s.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, s),
    };
    let (m, e) = s.split_once('e').unwrap();
    let e: i64 = e.parse().unwrap();
    (neg, m.replace('.', ""), e)
}
/// A random spelling of the decimal 0.d1d2d3.. * 10^(e+1).
pub fn spell_decimal(src: &mut Src, neg: bool, digits: &str, e: i64, fmt: Fmt) -> String {
    let ron = fmt == Fmt::Ron;
    let mut d: String = digits.to_string();
    // zeros change nothing
    if src.chance(1, 4) {
        let n = if src.chance(1, 12) { *src.pick(&[20, 60, 400, 1200]) } else { src.below(6) };
        d.push_str(&"0".repeat(n));
    }
    let sign = if neg {
        "-"
    } else if ron && src.chance(1, 6) {
        "+"
    } else {
        ""
    };
    // point position: value = d[0..p].d[p..] * 10^x
    let n = d.len() as i64;
    let plain_ok = (-30..=320).contains(&e);
    let style = src.below(4);
    if style == 0 && plain_ok {
        // plain
        let body = if e < 0 {
            format!("{}.{}{}", if ron && src.chance(1, 3) { "" } else { "0" }, "0".repeat((-e - 1) as usize), d)
        } else if e + 1 >= n {
            let i = format!("{}{}", d, "0".repeat((e + 1 - n) as usize));
            match src.below(3) {
                0 => i,
                1 => i + ".0",
                _ => {
                    if ron {
                        i + "."
                    } else {
                        i + ".00"
                    }
                }
            }
        } else {
            let p = (e + 1) as usize;
            format!("{}.{}", &d[..p], &d[p..])
        };
        let body = strip_lead(&body, ron);
        return format!("{}{}", sign, body);
    }
    // scientific with a random point
    let p = if style == 1 { 1 } else { src.below(d.len() + 3) as i64 };
    let (int, frac) = if p == 0 {
        ("0".to_string(), d.clone())
    } else if p >= n {
        (format!("{}{}", d, "0".repeat((p - n) as usize)), String::new())
    } else {
        (d[..p as usize].to_string(), d[p as usize..].to_string())
    };
    let x = e + 1 - p;
    let mut m = int;
    if !frac.is_empty() {
        m = format!("{}.{}", m, frac);
    }
    let m = strip_lead(&m, ron);
    let ec = *src.pick(&["e", "E"]);
    let lead = "0".repeat(if src.chance(1, 12) { *src.pick(&[4, 8, 20, 300]) } else { src.below(3) });
    let es = if x < 0 { format!("-{}{}", lead, -x) } else { format!("{}{}{}", *src.pick(&["", "+"]), lead, x) };
    format!("{}{}{}{}", sign, m, ec, es)
}
/// No leading zeros in the integer part.
fn strip_lead(m: &str, ron: bool) -> String {
    let (i, f) = match m.find('.') {
        Some(p) => (&m[..p], &m[p..]),
        None => (m, ""),
    };
    let t = i.trim_start_matches('0');
    let i = if t.is_empty() && !(i.is_empty() && ron) { "0" } else { t };
    format!("{}{}", i, f)
}
fn float_text(src: &mut Src, is32: bool, bits: u64, fmt: Fmt, spell: bool) -> String {
    let (dbg, sci, zero, neg) = if is32 {
        let f = f32::from_bits(bits as u32);
        (format!("{:?}", f), format!("{:e}", f), f == 0.0, f.is_sign_negative())
    } else {
        let f = f64::from_bits(bits);
        (format!("{:?}", f), format!("{:e}", f), f == 0.0, f.is_sign_negative())
    };
    if !spell || src.chance(1, 6) {
        return dbg;
    }
    if zero {
        let s = *src.pick(&["0", "0.0", "0.000", "0e0", "0E+5", "0.0e-12", "0e400", "0E99999999", "0e-000000000001", "0.0e+2147483648", "0e-99999999999999999999"]);
        return format!("{}{}", if neg { "-" } else { "" }, s);
    }
    let (neg, d, e) = digits_of(&sci);
    spell_decimal(src, neg, &d, e, fmt)
}

fn atom(slot: TyRef, s: impl Into<String>) -> Node {
    Node { slot: Some(slot), pre: String::new(), k: NK::Atom(s.into()) }
}
fn list(slot: TyRef, open: char, items: Vec<Node>, fixed: bool, trail: bool) -> Node {
    Node { slot: Some(slot), pre: String::new(), k: NK::List { open, items, fixed, trail } }
}
pub const STR: TyRef = &Ty::Str;
const U64T: TyRef = &Ty::U(64);
const U32T: TyRef = &Ty::U(32);

fn int_text(src: &mut Src, s: String, fmt: Fmt, o: Opts) -> String {
    if o.spell && fmt == Fmt::Ron && !s.starts_with('-') && src.chance(1, 8) {
        return format!("+{}", s);
    }
    s
}

/// A document for `v`; `v` becomes what decoding it must give.
pub fn build(src: &mut Src, v: &mut Val, ty: TyRef, fmt: Fmt, o: Opts) -> Node {
    let json = fmt == Fmt::Json;
    let none = || if json { "null" } else { "None" };
    match (ty, v) {
        (Ty::Unit, _) => {
            if json {
                atom(ty, "null")
            } else {
                list(ty, '(', vec![], true, false)
            }
        }
        (Ty::Bool, Val::Bool(b)) => atom(ty, b.to_string()),
        (Ty::U(_), Val::U(x)) => {
            let s = x.to_string();
            atom(ty, int_text(src, s, fmt, o))
        }
        (Ty::I(_), Val::I(x)) => {
            let s = x.to_string();
            atom(ty, int_text(src, s, fmt, o))
        }
        (Ty::F32, Val::F32(b)) => atom(ty, float_text(src, true, *b as u64, fmt, o.spell)),
        (Ty::F64, Val::F64(b)) => atom(ty, float_text(src, false, *b, fmt, o.spell)),
        (Ty::Str, Val::Str(s)) => atom(ty, quote(src, s, fmt, o.spell)),
        (Ty::Dur, Val::Dur(s, n)) => dur_node(src, ty, *s, *n, fmt, o),
        (Ty::Time, Val::Time(Some((s, n)))) => dur_node(src, ty, *s, *n, fmt, o),
        (Ty::Time, t @ Val::Time(None)) => {
            *t = Val::Time(Some((0, 0)));
            atom(ty, none())
        }
        (Ty::Opt(_), Val::Opt(None)) => atom(ty, none()),
        (Ty::Opt(t), Val::Opt(Some(x))) => {
            let mut n = build(src, x, t, fmt, o);
            n.slot = Some(ty);
            n
        }
        (Ty::Seq(t), Val::Seq(x)) => {
            let items = x.iter_mut().map(|x| build(src, x, t, fmt, o)).collect();
            list(ty, '[', items, false, true)
        }
        (Ty::Set(_, t), Val::Set(x)) => {
            // elements that differ must not become the same by leaving out what has a default
            let keys = Opts { omit: false, ..o };
            let mut items: Vec<Node> = x.iter_mut().map(|x| build(src, x, t, fmt, keys)).collect();
            if o.spell {
                src.shuffle(&mut items)
            }
            x.sort();
            x.dedup();
            list(ty, '[', items, false, true)
        }
        (Ty::Arr(_, t), Val::Arr(x)) => {
            let items: Vec<Node> = x.iter_mut().map(|x| build(src, x, t, fmt, o)).collect();
            let tr = !items.is_empty();
            list(ty, if json { '[' } else { '(' }, items, true, tr)
        }
        (Ty::Tup(ts), Val::Tup(x)) => {
            let items = x.iter_mut().zip(ts.iter()).map(|(x, t)| build(src, x, t, fmt, o)).collect();
            list(ty, if json { '[' } else { '(' }, items, true, true)
        }
        (Ty::Map(_, k, t), Val::Map(x)) => {
            let mut mems: Vec<Mem> = x
                .iter_mut()
                .map(|(a, b)| Mem { key: build(src, a, k, fmt, Opts { omit: false, ..o }), val: build(src, b, t, fmt, o), required: false })
                .collect();
            if o.spell {
                src.shuffle(&mut mems)
            }
            Node { slot: Some(ty), pre: String::new(), k: NK::Obj { open: '{', mems, trail: true, wrapper: false } }
        }
        (Ty::Struct(d), Val::Rec(x)) => match d.kind {
            Kind::Unit if !json => list(ty, '(', vec![], true, false),
            Kind::Unit => Node { slot: Some(ty), pre: String::new(), k: NK::Obj { open: '{', mems: vec![], trail: false, wrapper: true } },
            Kind::Named => named(src, ty, d.fields, x, d.container_default, fmt, o),
            Kind::Tuple if json && d.transparent && d.fields.len() == 1 => {
                let mut n = build(src, &mut x[0], (d.fields[0].ty)(), fmt, o);
                n.slot = Some(ty);
                n
            }
            Kind::Tuple => {
                let mut items = vec![];
                for (x, f) in x.iter_mut().zip(d.fields) {
                    if skipped(f, fmt, Kind::Tuple, false) {
                        *x = (f.type_default.expect("harness: type_default"))();
                    } else {
                        items.push(build(src, x, (f.ty)(), fmt, o))
                    }
                }
                let tr = !items.is_empty();
                list(ty, if json { '[' } else { '(' }, items, true, tr)
            }
        },
        (Ty::Enum(d), Val::Enum(i, x)) => {
            let var = &d.variants[*i];
            let inner = match var.kind {
                Kind::Unit => {
                    return if json {
                        atom(ty, quote(src, var.json, fmt, o.spell))
                    } else {
                        atom(ty, var.name)
                    }
                }
                Kind::Named => named(src, ty, var.fields, x, false, fmt, o),
                Kind::Tuple => {
                    let items = x.iter_mut().zip(var.fields).map(|(x, f)| build(src, x, (f.ty)(), fmt, o)).collect();
                    list(ty, if json { '[' } else { '(' }, items, true, true)
                }
            };
            if json {
                let key = atom(STR, quote(src, var.json, fmt, o.spell));
                Node {
                    slot: Some(ty),
                    pre: String::new(),
                    k: NK::Obj { open: '{', mems: vec![Mem { key, val: inner, required: true }], trail: false, wrapper: true },
                }
            } else {
                let mut n = inner;
                n.pre = var.name.to_string();
                n
            }
        }
        (_, v) => panic!("harness: shape {:?}", v),
    }
}
fn dur_node(src: &mut Src, ty: TyRef, s: u64, n: u32, fmt: Fmt, o: Opts) -> Node {
    let mut mems = vec![Mem { key: atom(STR, quote(src, "secs", fmt, o.spell)), val: atom(U64T, s.to_string()), required: true }];
    if n != 0 || (o.spell && src.chance(1, 3)) {
        mems.push(Mem { key: atom(STR, quote(src, "nanos", fmt, o.spell)), val: atom(U32T, n.to_string()), required: false });
    }
    if o.spell {
        src.shuffle(&mut mems)
    }
    Node { slot: Some(ty), pre: String::new(), k: NK::Obj { open: '{', mems, trail: true, wrapper: false } }
}
fn named(src: &mut Src, ty: TyRef, fields: &'static [FieldDef], x: &mut [Val], cdef: bool, fmt: Fmt, o: Opts) -> Node {
    let json = fmt == Fmt::Json;
    let mut mems = vec![];
    for (x, f) in x.iter_mut().zip(fields) {
        let fty = (f.ty)();
        if f.skip {
            *x = missing_value(f, false).unwrap();
            continue;
        }
        let mv = missing_value(f, cdef);
        if let Some(mv) = &mv {
            if o.omit && src.chance(1, 3) {
                *x = mv.clone();
                continue;
            }
            // a None may be left out, unless leaving it out means something else
            if *x == Val::Opt(None) && *mv == Val::Opt(None) && (!o.spell || src.chance(1, 2)) {
                continue;
            }
        }
        let name = if json { f.json } else { f.ron };
        let key = if json { atom(STR, quote(src, name, fmt, o.spell)) } else { atom(STR, name) };
        mems.push(Mem { key, val: build(src, x, fty, fmt, o), required: mv.is_none() });
    }
    if o.unknown && json && src.chance(1, 2) {
        if crate::gen::wants_extra() {
            // one choice decides them all, for the sake of shrinking
            let n = if src.chance(1, 2) { src.range(200, 1500) } else { 1 };
            let mut r = Src::random(src.bits(), None);
            for _ in 0..n {
                let name = unknown_name(&mut r, fields);
                let key = atom(STR, quote(&mut r, &name, fmt, true));
                mems.push(Mem { key, val: if n == 1 { large_junk(src, &mut r) } else { junk(&mut r, 1) }, required: false });
            }
        }
        for _ in 0..src.range(1, 3) {
            let name = unknown_name(src, fields);
            let key = atom(STR, quote(src, &name, fmt, true));
            mems.push(Mem { key, val: junk(src, 3), required: false });
        }
        src.shuffle(&mut mems);
    } else if o.spell {
        src.shuffle(&mut mems)
    }
    Node {
        slot: Some(ty),
        pre: String::new(),
        k: NK::Obj { open: if json { '{' } else { '(' }, mems, trail: true, wrapper: false },
    }
}
/// A member name that is none of the fields (but may be a skipped field's, or a renamed field's
/// own name).
fn unknown_name(src: &mut Src, fields: &'static [FieldDef]) -> String {
    let taken = |s: &str| fields.iter().any(|f| !f.skip && f.json == s);
    for _ in 0..8 {
        let c = match src.below(4) {
            0 if !fields.is_empty() => {
                let f = src.pick(fields);
                match src.below(5) {
                    0 => f.name.to_string(),
                    1 => format!("{}x", f.json),
                    2 => f.json.chars().skip(1).collect(),
                    3 => f.json.to_uppercase(),
                    _ => f.json.chars().rev().collect(),
                }
            }
            1 => gen::string(src),
            _ => src.pick(&["zz", "", "unknown", "secs", "default", "_", "a b", "é", "\"", "null"]).to_string(),
        };
        if !taken(&c) {
            return c;
        }
    }
    let mut s = "zz".to_string();
    while taken(&s) {
        s.push('z')
    }
    s
}
/// A JSON value of many elements or characters.
fn large_junk(src: &mut Src, r: &mut Src) -> Node {
    let mk = |k| Node { slot: None, pre: String::new(), k };
    let n = crate::gen::big(src);
    match src.below(4) {
        0 => {
            let s = crate::gen::big_string(src, n);
            mk(NK::Atom(quote(r, &s, Fmt::Json, true)))
        }
        1 => mk(NK::Atom("9".repeat(n))),
        2 => mk(NK::List { open: '[', items: (0..n / 8).map(|_| junk(r, 1)).collect(), fixed: false, trail: false }),
        _ => {
            let mems = (0..n / 16)
                .map(|i| Mem { key: mk(NK::Atom(format!("\"{}\"", i % 1000))), val: junk(r, 1), required: false })
                .collect();
            mk(NK::Obj { open: '{', mems, trail: false, wrapper: false })
        }
    }
}
/// Any JSON value at all.
pub fn junk(src: &mut Src, depth: usize) -> Node {
    let mk = |k| Node { slot: None, pre: String::new(), k };
    match src.below(if depth == 0 { 5 } else { 8 }) {
        0 => mk(NK::Atom("null".into())),
        1 => mk(NK::Atom(["true", "false"][src.below(2)].into())),
        2 => mk(NK::Atom(
            src.pick(&["0", "-1", "1.5", "1e5", "2E+3", "-0.25e-2", "18446744073709551616", "-9223372036854775809", "1e999", "123456789012345678901234567890"])
                .to_string(),
        )),
        3 => {
            let s = gen::string(src);
            mk(NK::Atom(quote(src, &s, Fmt::Json, true)))
        }
        4 => {
            let s = *src.pick(&["}", "]", "{", "[", "\",\"", "//", "/*", "\\"]);
            mk(NK::Atom(quote(src, s, Fmt::Json, true)))
        }
        5 | 6 => {
            let n = src.below(4);
            let items = (0..n).map(|_| junk(src, depth - 1)).collect();
            mk(NK::List { open: '[', items, fixed: false, trail: false })
        }
        _ => {
            let n = src.below(4);
            let mems = (0..n)
                .map(|_| {
                    let s = gen::string(src);
                    Mem { key: mk(NK::Atom(quote(src, &s, Fmt::Json, true))), val: junk(src, depth - 1), required: false }
                })
                .collect();
            mk(NK::Obj { open: '{', mems, trail: false, wrapper: false })
        }
    }
}

// ---------------------------------------------------------------- tokens
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Role {
    Open,
    Close,
    Comma,
    TrailComma,
    Colon,
    Atom,
    /// RON member or variant name
    Ident,
}
#[derive(Clone)]
pub struct Tok {
    pub s: String,
    pub role: Role,
    pub skipped: bool,
}
pub fn flatten(src: &mut Src, n: &Node, trailing: bool, out: &mut Vec<Tok>) {
    fn close(c: char) -> char {
        match c {
            '(' => ')',
            '[' => ']',
            _ => '}',
        }
    }
    let sk = n.slot.is_none();
    let t = |s: String, role: Role| Tok { s, role, skipped: sk };
    if !n.pre.is_empty() {
        out.push(t(n.pre.clone(), Role::Ident));
    }
    match &n.k {
        NK::Atom(s) => out.push(t(s.clone(), Role::Atom)),
        NK::List { open, items, trail, .. } => {
            out.push(t(open.to_string(), Role::Open));
            for (i, x) in items.iter().enumerate() {
                if i > 0 {
                    out.push(t(",".into(), Role::Comma))
                }
                flatten(src, x, trailing, out)
            }
            if *trail && trailing && !items.is_empty() && src.chance(1, 3) {
                out.push(t(",".into(), Role::TrailComma))
            }
            out.push(t(close(*open).to_string(), Role::Close));
        }
        NK::Obj { open, mems, trail, .. } => {
            out.push(t(open.to_string(), Role::Open));
            for (i, m) in mems.iter().enumerate() {
                if i > 0 {
                    out.push(t(",".into(), Role::Comma))
                }
                let at = out.len();
                flatten(src, &m.key, trailing, out);
                if *open == '(' {
                    out[at].role = Role::Ident
                }
                out.push(t(":".into(), Role::Colon));
                flatten(src, &m.val, trailing, out)
            }
            if *trail && trailing && !mems.is_empty() && src.chance(1, 3) {
                out.push(t(",".into(), Role::TrailComma))
            }
            out.push(t(close(*open).to_string(), Role::Close));
        }
    }
}
#[derive(Clone, Copy, PartialEq)]
pub enum Space {
    Tight,
    White,
    Comments,
}
fn comment(src: &mut Src) -> String {
    let body = |src: &mut Src| -> String {
        let s = *src.pick(&[
            "", " ", "x", " a \"quoted\" word", "{[(", ")]}", "*", "**", " * / ", "/", "//", "/*", ",:", "é😀", "'", "\\", "\\\"", "1.5e", "/ *", "a\tb", "null", "\r",
        ]);
        s.to_string()
    };
    if src.chance(1, 2) {
        let b = body(src);
        format!("//{}\n", b)
    } else {
        let mut b = body(src);
        if src.chance(1, 4) {
            b.push_str("\n\n ")
        }
        if src.chance(1, 4) {
            b.push_str(&"*".repeat(src.below(4)))
        }
        let b = b.replace("*/", "* /");
        format!("/*{}*/", b)
    }
}
pub fn space(src: &mut Src, sp: Space) -> String {
    if sp == Space::Tight {
        return String::new();
    }
    let mut o = String::new();
    match src.below(6) {
        0..=2 => {}
        3 => o.push(' '),
        4 => o.push_str(src.pick::<&str>(&["\n", "\t", "\r\n", "  ", "\r", "\n\n\t "])),
        _ => {
            for _ in 0..src.range(1, 3) {
                if sp == Space::Comments && src.chance(1, 2) {
                    o.push_str(&comment(src))
                } else {
                    o.push(*src.pick(&[' ', '\n', '\t', '\r']))
                }
            }
        }
    }
    o
}
/// A character of a name behind its first: also marks and joining points.
pub fn in_word(c: char) -> bool {
    c.is_alphanumeric() || c == '_' || !(c.is_ascii() || c.is_whitespace() || c.is_control())
}
fn wordy(s: &str, first: bool) -> bool {
    let c = if first { s.chars().next() } else { s.chars().last() };
    c.is_some_and(|c| in_word(c) || ".+-".contains(c))
}
/// Text of the tokens and the byte range of each.
pub fn join(src: &mut Src, toks: &[Tok], sp: Space) -> (String, Vec<(usize, usize)>) {
    let mut o = space(src, sp);
    let mut at = vec![];
    for (i, t) in toks.iter().enumerate() {
        let a = o.len();
        o.push_str(&t.s);
        at.push((a, o.len()));
        let s = space(src, sp);
        if s.is_empty() && i + 1 < toks.len() && wordy(&t.s, false) && wordy(&toks[i + 1].s, true) {
            o.push(' ')
        }
        o.push_str(&s);
    }
    (o, at)
}

// ---------------------------------------------------------------- strict parsers
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Ident(String),
    List(char, Vec<J>),
    Map(Vec<(J, J)>),
    /// RON (name:value,..)
    Rec(Vec<(String, J)>),
    /// RON Name(..)
    Tagged(String, Box<J>),
}
struct P<'a> {
    s: &'a [char],
    i: usize,
    ron: bool,
    depth: usize,
}
type PR<T> = Result<T, String>;
impl<'a> P<'a> {
    fn peek(&self) -> char {
        *self.s.get(self.i).unwrap_or(&'\0')
    }
    fn err<T>(&self, w: &str) -> PR<T> {
        Err(format!("{} at char {}", w, self.i))
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && matches!(self.peek(), ' ' | '\n' | '\t' | '\r') {
            self.i += 1
        }
    }
    fn eat(&mut self, c: char) -> PR<()> {
        if self.i < self.s.len() && self.peek() == c {
            self.i += 1;
            Ok(())
        } else {
            self.err(&format!("expected {}", c))
        }
    }
    fn string(&mut self) -> PR<String> {
        self.eat('"')?;
        let mut o = String::new();
        loop {
            if self.i >= self.s.len() {
                return self.err("unterminated string");
            }
            let c = self.peek();
            self.i += 1;
            match c {
                '"' => return Ok(o),
                '\\' => {
                    let e = self.peek();
                    self.i += 1;
                    o.push(match e {
                        '"' => '"',
                        '\\' => '\\',
                        '/' if !self.ron => '/',
                        'b' if !self.ron => '\u{8}',
                        'f' if !self.ron => '\u{c}',
                        'n' => '\n',
                        'r' => '\r',
                        't' => '\t',
                        '0' if self.ron => '\0',
                        'u' if !self.ron => {
                            let a = self.hex4()?;
                            if (0xd800..0xdc00).contains(&a) {
                                self.eat('\\')?;
                                self.eat('u')?;
                                let b = self.hex4()?;
                                if !(0xdc00..0xe000).contains(&b) {
                                    return self.err("surrogate");
                                }
                                char::from_u32(0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00)).unwrap()
                            } else {
                                match char::from_u32(a) {
                                    Some(c) => c,
                                    None => return self.err("surrogate"),
                                }
                            }
                        }
                        _ => return self.err("escape"),
                    })
                }
                c if !self.ron && (c as u32) < 0x20 => return self.err("raw control character"),
                c if self.ron && matches!(c, '\0' | '\n' | '\r' | '\t') => return self.err("raw control character"),
                c => o.push(c),
            }
        }
    }
    fn hex4(&mut self) -> PR<u32> {
        let mut v = 0;
        for _ in 0..4 {
            match self.peek().to_digit(16) {
                Some(d) if self.i < self.s.len() => v = v * 16 + d,
                _ => return self.err("hex"),
            }
            self.i += 1
        }
        Ok(v)
    }
    fn number(&mut self) -> PR<J> {
        let a = self.i;
        if self.peek() == '-' {
            self.i += 1
        }
        if self.peek() == '0' {
            self.i += 1
        } else if self.peek().is_ascii_digit() {
            while self.peek().is_ascii_digit() {
                self.i += 1
            }
        } else {
            return self.err("digit");
        }
        if self.peek() == '.' {
            self.i += 1;
            if !self.peek().is_ascii_digit() {
                return self.err("fraction digit");
            }
            while self.peek().is_ascii_digit() {
                self.i += 1
            }
        }
        if matches!(self.peek(), 'e' | 'E') {
            self.i += 1;
            if matches!(self.peek(), '+' | '-') {
                self.i += 1
            }
            if !self.peek().is_ascii_digit() {
                return self.err("exponent digit");
            }
            while self.peek().is_ascii_digit() {
                self.i += 1
            }
        }
        if self.peek().is_alphanumeric() || self.peek() == '_' || self.peek() == '.' {
            return self.err("character after number");
        }
        Ok(J::Num(self.s[a..self.i].iter().collect()))
    }
    fn word(&mut self) -> String {
        let a = self.i;
        while in_word(self.peek()) {
            self.i += 1
        }
        self.s[a..self.i].iter().collect()
    }
    fn sep(&mut self, close: char) -> PR<bool> {
        // true: another element follows
        self.ws();
        if self.peek() == close {
            self.i += 1;
            return Ok(false);
        }
        self.eat(',')?;
        self.ws();
        if self.ron && self.peek() == close {
            self.i += 1;
            return Ok(false);
        }
        Ok(true)
    }
    fn value(&mut self) -> PR<J> {
        self.depth += 1;
        if self.depth > 2000 {
            return self.err("too deep for the oracle");
        }
        self.ws();
        if self.i >= self.s.len() {
            return self.err("end of input");
        }
        let c = self.peek();
        let r = match c {
            '"' => J::Str(self.string()?),
            '-' | '0'..='9' => self.number()?,
            '[' => {
                self.i += 1;
                self.ws();
                let mut x = vec![];
                if self.peek() == ']' {
                    self.i += 1
                } else {
                    loop {
                        x.push(self.value()?);
                        if !self.sep(']')? {
                            break;
                        }
                    }
                }
                J::List('[', x)
            }
            '{' => {
                self.i += 1;
                self.ws();
                let mut x: Vec<(J, J)> = vec![];
                if self.peek() == '}' {
                    self.i += 1
                } else {
                    loop {
                        self.ws();
                        let k = if self.ron { self.value()? } else { J::Str(self.string()?) };
                        self.ws();
                        self.eat(':')?;
                        let v = self.value()?;
                        x.push((k, v));
                        if !self.sep('}')? {
                            break;
                        }
                    }
                    let mut ks: Vec<&J> = x.iter().map(|(k, _)| k).collect();
                    ks.sort();
                    if ks.windows(2).any(|w| w[0] == w[1]) {
                        return self.err("duplicate member");
                    }
                }
                J::Map(x)
            }
            '(' if self.ron => self.paren()?,
            c if c.is_alphabetic() || matches!(c, '_' | '℘' | '℮') => {
                let w = self.word();
                match w.as_str() {
                    "true" => J::Bool(true),
                    "false" => J::Bool(false),
                    "null" if !self.ron => J::Null,
                    _ if self.ron => {
                        self.ws();
                        if self.peek() == '(' {
                            J::Tagged(w, Box::new(self.paren()?))
                        } else {
                            J::Ident(w)
                        }
                    }
                    _ => return self.err("bare word"),
                }
            }
            _ => return self.err("value expected"),
        };
        self.depth -= 1;
        Ok(r)
    }
    fn paren(&mut self) -> PR<J> {
        self.eat('(')?;
        self.ws();
        if self.peek() == ')' {
            self.i += 1;
            return Ok(J::List('(', vec![]));
        }
        // a name followed by a colon starts a record
        let save = self.i;
        let c = self.peek();
        if c.is_alphabetic() || matches!(c, '_' | '℘' | '℮') {
            self.word();
            self.ws();
            if self.peek() == ':' {
                self.i = save;
                let mut x: Vec<(String, J)> = vec![];
                loop {
                    self.ws();
                    let w = self.word();
                    if w.is_empty() {
                        return self.err("member name");
                    }
                    self.ws();
                    self.eat(':')?;
                    let v = self.value()?;
                    if x.iter().any(|(a, _)| *a == w) {
                        return self.err("duplicate member");
                    }
                    x.push((w, v));
                    if !self.sep(')')? {
                        return Ok(J::Rec(x));
                    }
                }
            }
            self.i = save;
        }
        let mut x = vec![];
        loop {
            x.push(self.value()?);
            if !self.sep(')')? {
                return Ok(J::List('(', x));
            }
        }
    }
}
pub fn parse(s: &str, fmt: Fmt) -> Result<J, String> {
    let c: Vec<char> = s.chars().collect();
    let mut p = P { s: &c, i: 0, ron: fmt == Fmt::Ron, depth: 0 };
    let v = p.value()?;
    p.ws();
    if p.i != c.len() {
        return p.err("text after the document");
    }
    Ok(v)
}

// ---------------------------------------------------------------- interpretation
fn int_of(s: &str) -> Result<i128, String> {
    let d = s.strip_prefix('-').unwrap_or(s);
    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
        return Err(format!("{} is not an integer", s));
    }
    s.parse::<i128>().map_err(|e| e.to_string())
}
/// Strict reading of what the library wrote.
pub fn interp(j: &J, ty: TyRef, fmt: Fmt) -> Result<Val, String> {
    let json = fmt == Fmt::Json;
    let tuple = if json { '[' } else { '(' };
    let bad = || -> Result<Val, String> { Err(format!("unexpected {}", short(j))) };
    let items = |want: char| -> Result<&Vec<J>, String> {
        match j {
            J::List(c, x) if *c == want => Ok(x),
            _ => Err(format!("expected {} list, got {}", want, short(j))),
        }
    };
    let many = |x: &[J], t: TyRef| -> Result<Vec<Val>, String> { x.iter().map(|x| interp(x, t, fmt)).collect() };
    let is_none = match j {
        J::Null => json,
        J::Ident(w) => !json && w == "None",
        _ => false,
    };
    Ok(match ty {
        Ty::Unit => match j {
            J::Null if json => Val::Unit,
            J::List('(', x) if !json && x.is_empty() => Val::Unit,
            _ => return bad(),
        },
        Ty::Bool => match j {
            J::Bool(b) => Val::Bool(*b),
            _ => return bad(),
        },
        Ty::U(bits) => match j {
            J::Num(s) => {
                let v = int_of(s)?;
                if v < 0 || (*bits < 128 && v >> *bits != 0) {
                    return bad();
                }
                Val::U(v as u128)
            }
            _ => return bad(),
        },
        Ty::I(_) => match j {
            J::Num(s) => Val::I(int_of(s)?),
            _ => return bad(),
        },
        Ty::F32 => match j {
            J::Num(s) => Val::F32(s.parse::<f32>().map_err(|e| e.to_string())?.to_bits()),
            _ => return bad(),
        },
        Ty::F64 => match j {
            J::Num(s) => Val::F64(s.parse::<f64>().map_err(|e| e.to_string())?.to_bits()),
            _ => return bad(),
        },
        Ty::Str => match j {
            J::Str(s) => Val::Str(s.clone()),
            _ => return bad(),
        },
        Ty::Time if is_none => Val::Time(Some((0, 0))),
        Ty::Dur | Ty::Time => {
            let m = match j {
                J::Map(m) => m,
                _ => return bad(),
            };
            let (mut s, mut n) = (None, 0);
            for (k, v) in m {
                let x = match v {
                    J::Num(x) => int_of(x)?,
                    _ => return bad(),
                };
                match k {
                    J::Str(k) if k == "secs" => s = Some(x as u64),
                    J::Str(k) if k == "nanos" => n = x as u32,
                    _ => return bad(),
                }
            }
            let s = s.ok_or("no secs")?;
            if matches!(ty, Ty::Dur) {
                Val::Dur(s, n)
            } else {
                Val::Time(Some((s, n)))
            }
        }
        Ty::Opt(_) if is_none => Val::Opt(None),
        Ty::Opt(t) => Val::Opt(Some(Box::new(interp(j, t, fmt)?))),
        Ty::Seq(t) => Val::Seq(many(items('[')?, t)?),
        Ty::Set(_, t) => {
            let mut x = many(items('[')?, t)?;
            let n = x.len();
            x.sort();
            x.dedup();
            if x.len() != n {
                return Err("duplicate set element".into());
            }
            Val::Set(x)
        }
        Ty::Arr(n, t) => {
            let x = items(tuple)?;
            if x.len() != *n {
                return Err(format!("{} elements instead of {}", x.len(), n));
            }
            Val::Arr(many(x, t)?)
        }
        Ty::Tup(ts) => {
            let x = items(tuple)?;
            if x.len() != ts.len() {
                return Err(format!("{} elements instead of {}", x.len(), ts.len()));
            }
            Val::Tup(x.iter().zip(ts.iter()).map(|(x, t)| interp(x, t, fmt)).collect::<Result<_, _>>()?)
        }
        Ty::Map(_, k, t) => match j {
            J::Map(m) => {
                let mut x = m.iter().map(|(a, b)| Ok((interp(a, k, fmt)?, interp(b, t, fmt)?))).collect::<Result<Vec<_>, String>>()?;
                x.sort();
                if x.windows(2).any(|w| w[0].0 == w[1].0) {
                    return Err("duplicate key".into());
                }
                Val::Map(x)
            }
            _ => return bad(),
        },
        Ty::Struct(d) => match d.kind {
            Kind::Unit => match j {
                J::Map(m) if json && m.is_empty() => Val::Rec(vec![]),
                J::List('(', x) if !json && x.is_empty() => Val::Rec(vec![]),
                _ => return bad(),
            },
            Kind::Tuple if json && d.transparent && d.fields.len() == 1 => Val::Rec(vec![interp(j, (d.fields[0].ty)(), fmt)?]),
            Kind::Tuple => Val::Rec(positional(items(tuple)?, d.fields, fmt, false)?),
            Kind::Named => Val::Rec(members(j, d.fields, fmt)?),
        },
        Ty::Enum(d) => {
            let (name, body): (&str, Option<&J>) = match j {
                J::Str(s) if json => (s, None),
                J::Map(m) if json && m.len() == 1 => match &m[0].0 {
                    J::Str(s) => (s, Some(&m[0].1)),
                    _ => return bad(),
                },
                J::Ident(s) => (s, None),
                J::Tagged(s, b) => (s, Some(b)),
                _ => return bad(),
            };
            let i = d
                .variants
                .iter()
                .position(|v| (if json { v.json } else { v.name }) == name)
                .ok_or_else(|| format!("no variant {}", name))?;
            let v = &d.variants[i];
            match (v.kind, body) {
                (Kind::Unit, None) => Val::Enum(i, vec![]),
                (Kind::Tuple, Some(J::List(c, x))) if *c == tuple => Val::Enum(i, positional(x, v.fields, fmt, true)?),
                (Kind::Named, Some(b)) => Val::Enum(i, members(b, v.fields, fmt)?),
                _ => return bad(),
            }
        }
    })
}
fn short(j: &J) -> String {
    let mut s = format!("{:?}", j);
    if s.len() > 120 {
        let mut n = 120;
        while !s.is_char_boundary(n) {
            n -= 1
        }
        s.truncate(n)
    }
    s
}
fn positional(x: &[J], fields: &'static [FieldDef], fmt: Fmt, in_enum: bool) -> Result<Vec<Val>, String> {
    let mut it = x.iter();
    let mut out = vec![];
    for f in fields {
        out.push(if skipped(f, fmt, Kind::Tuple, in_enum) {
            (f.type_default.expect("harness: type_default"))()
        } else {
            interp(it.next().ok_or("too few elements")?, (f.ty)(), fmt)?
        })
    }
    if it.next().is_some() {
        return Err("too many elements".into());
    }
    Ok(out)
}
fn members(j: &J, fields: &'static [FieldDef], fmt: Fmt) -> Result<Vec<Val>, String> {
    let json = fmt == Fmt::Json;
    let list: Vec<(&str, &J)> = match j {
        J::Map(m) if json => m
            .iter()
            .map(|(k, v)| match k {
                J::Str(s) => Ok((s.as_str(), v)),
                _ => Err("member name".to_string()),
            })
            .collect::<Result<_, _>>()?,
        J::Rec(m) if !json => m.iter().map(|(k, v)| (k.as_str(), v)).collect(),
        J::List('(', x) if !json && x.is_empty() => vec![],
        _ => return Err(format!("expected members, got {}", short(j))),
    };
    let mut used = 0;
    let mut out = vec![];
    for f in fields {
        if f.skip {
            out.push(missing_value(f, false).unwrap());
            continue;
        }
        let name = if json { f.json } else { f.ron };
        match list.iter().find(|(k, _)| *k == name) {
            Some((_, v)) => {
                used += 1;
                let x = interp(v, (f.ty)(), fmt)?;
                if f.is_opt && x == Val::Opt(None) && !(json && f.null_none) {
                    return Err(format!("None field {} was written", name));
                }
                out.push(x)
            }
            None if f.is_opt && !(json && f.null_none) => out.push(missing_value(f, false).unwrap()),
            None => return Err(format!("member {} missing", name)),
        }
    }
    if used != list.len() {
        return Err(format!("unexpected member among {:?}", list.iter().map(|x| x.0).collect::<Vec<_>>()));
    }
    Ok(out)
}

// ---------------------------------------------------------------- invalidating mutations
/// Applies `f` to the `i`-th node for which `want` holds.
fn nth(n: &mut Node, want: &dyn Fn(&Node) -> bool, i: &mut usize, f: &mut dyn FnMut(&mut Node)) -> bool {
    if n.slot.is_none() {
        return false;
    }
    if want(n) {
        if *i == 0 {
            f(n);
            return true;
        }
        *i -= 1;
    }
    match &mut n.k {
        NK::Atom(_) => false,
        NK::List { items, .. } => items.iter_mut().any(|x| nth(x, want, i, f)),
        NK::Obj { mems, .. } => mems.iter_mut().any(|m| nth(&mut m.key, want, i, f) || nth(&mut m.val, want, i, f)),
    }
}
fn count(n: &Node, want: &dyn Fn(&Node) -> bool) -> usize {
    if n.slot.is_none() {
        return 0;
    }
    want(n) as usize
        + match &n.k {
            NK::Atom(_) => 0,
            NK::List { items, .. } => items.iter().map(|x| count(x, want)).sum(),
            NK::Obj { mems, .. } => mems.iter().map(|m| count(&m.key, want) + count(&m.val, want)).sum(),
        }
}
/// Which of the replacement atoms a type could accept.
fn accepts(ty: TyRef, kind: &str, fmt: Fmt) -> bool {
    let json = fmt == Fmt::Json;
    match ty {
        Ty::Unit => kind == if json { "null" } else { "()" },
        Ty::Bool => kind == "true" || (!json && kind == "7"),
        Ty::U(_) => kind == "7",
        Ty::I(_) => kind == "7" || kind == "-7",
        Ty::F32 | Ty::F64 => matches!(kind, "7" | "-7" | "1.5"),
        Ty::Str => kind == "\"zz?\"",
        Ty::Dur => false,
        Ty::Time => matches!(kind, "null" | "None"),
        Ty::Opt(t) => matches!(kind, "null" | "None") || accepts(t, kind, fmt),
        Ty::Seq(_) | Ty::Set(_, _) => kind == "[]",
        Ty::Arr(n, _) => *n == 0 && kind == if json { "[]" } else { "()" },
        Ty::Tup(_) => false,
        Ty::Map(..) => kind == "{}",
        Ty::Struct(d) => match d.kind {
            Kind::Unit | Kind::Named => kind == if json { "{}" } else { "()" },
            Kind::Tuple if json && d.transparent && d.fields.len() == 1 => accepts((d.fields[0].ty)(), kind, fmt),
            Kind::Tuple => kind == "()",
        },
        Ty::Enum(d) => d.variants.iter().any(|v| v.name == kind || v.json == kind.trim_matches('"')),
    }
}

/// Mutates the tree so that it no longer denotes a value; None if this kind does not apply.
pub fn break_tree(src: &mut Src, n: &mut Node, fmt: Fmt) -> Option<&'static str> {
    let json = fmt == Fmt::Json;
    let apply = |src: &mut Src, n: &mut Node, want: &dyn Fn(&Node) -> bool, f: &mut dyn FnMut(&mut Src, &mut Node) -> bool| -> bool {
        let c = count(n, want);
        if c == 0 {
            return false;
        }
        let mut i = src.below(c);
        let mut done = false;
        nth(n, want, &mut i, &mut |x| done = f(src, x));
        done
    };
    match src.below(8) {
        0 | 1 => {
            let cands: &[&str] = if json {
                &["null", "true", "7", "-7", "1.5", "\"zz?\"", "[]", "{}"]
            } else {
                &["None", "true", "7", "-7", "1.5", "\"zz?\"", "[]", "()", "{}", "Zz", "'c'"]
            };
            apply(src, n, &|_| true, &mut |src, x| {
                let c = *src.pick(cands);
                // member names of records are not values
                if accepts(x.slot.unwrap(), c, fmt) {
                    return false;
                }
                // a member's name for another
                if !json && matches!((&x.k, x.slot), (NK::Atom(s), Some(Ty::Str)) if !s.starts_with('"')) && matches!(c, "None" | "true" | "Zz") {
                    return false;
                }
                // the members of a struct variant may all be optional
                // ... and a tuple variant may have no members
                if c == "{}" && matches!(x.slot, Some(Ty::Enum(_))) && matches!(x.k, NK::Obj { wrapper: false, .. })
                    || c == "[]" && matches!(x.slot, Some(Ty::Enum(_))) && matches!(x.k, NK::List { open: '[', .. })
                    || c == "()" && matches!(x.slot, Some(Ty::Enum(_))) && matches!(x.k, NK::List { open: '(', .. })
                {
                    return false;
                }
                x.pre.clear();
                x.k = NK::Atom(c.to_string());
                true
            })
            .then_some("wrong kind")
        }
        2 => apply(src, n, &|x| matches!(&x.k, NK::List { fixed: true, items, .. } if !items.is_empty()), &mut |src, x| {
            if let NK::List { items, .. } = &mut x.k {
                let i = src.below(items.len());
                items.remove(i);
                // two types side by side may both accept what is left only if a trailing one is optional: never in lists
                true
            } else {
                false
            }
        })
        .then_some("too few elements"),
        3 => apply(src, n, &|x| matches!(&x.k, NK::List { fixed: true, items, .. } if !items.is_empty()), &mut |src, x| {
            if let NK::List { items, .. } = &mut x.k {
                let i = src.below(items.len());
                let c = items[i].clone();
                items.push(c);
                true
            } else {
                false
            }
        })
        .then_some("too many elements"),
        4 => apply(src, n, &|x| matches!(&x.k, NK::Obj { mems, .. } if mems.iter().any(|m| m.required)), &mut |src, x| {
            if let NK::Obj { mems, .. } = &mut x.k {
                let r: Vec<usize> = (0..mems.len()).filter(|i| mems[*i].required).collect();
                let i = *src.pick(&r);
                mems.remove(i);
                true
            } else {
                false
            }
        })
        .then_some("missing member"),
        5 => apply(src, n, &|x| matches!(x.slot, Some(Ty::Enum(_))), &mut |src, x| {
            // unknown variant
            let bad = *src.pick(&["Zz", "zz_", "Zz0"]);
            if json {
                match &mut x.k {
                    NK::Atom(s) => *s = format!("\"{}\"", bad),
                    NK::Obj { mems, wrapper: true, .. } if mems.len() == 1 => mems[0].key.k = NK::Atom(format!("\"{}\"", bad)),
                    _ => return false,
                }
            } else if x.pre.is_empty() {
                match &mut x.k {
                    NK::Atom(s) => *s = bad.to_string(),
                    _ => return false,
                }
            } else {
                x.pre = bad.to_string()
            }
            true
        })
        .then_some("unknown variant"),
        6 if json => apply(src, n, &|x| matches!(&x.k, NK::Obj { wrapper: true, mems, .. } if mems.len() == 1), &mut |src, x| {
            if let NK::Obj { mems, .. } = &mut x.k {
                let c = mems[0].clone();
                if src.below(2) == 0 {
                    mems.push(c)
                } else {
                    mems.push(Mem { key: c.key, val: junk(src, 1), required: true });
                }
            }
            true
        })
        .then_some("two variants"),
        6 => apply(
            src,
            n,
            &|x| {
                matches!(
                    (&x.k, x.slot),
                    (NK::Obj { open: '(', .. }, Some(Ty::Struct(StructDef { kind: Kind::Named, .. })) | Some(Ty::Enum(_)))
                )
            },
            &mut |src, x| {
                let fields: Vec<&FieldDef> = match x.slot {
                    Some(Ty::Struct(d)) => d.fields.iter().collect(),
                    _ => vec![],
                };
                if let NK::Obj { mems, .. } = &mut x.k {
                    // an unknown member; a skipped or renamed field's own name is unknown too
                    let mut name = src.pick(&["zz", "Zz", "_", "zz9"]).to_string();
                    if src.chance(1, 2) && !fields.is_empty() {
                        let f = *src.pick(&fields);
                        if fields.iter().all(|g| g.skip || g.ron != f.name) {
                            name = f.name.to_string()
                        }
                    }
                    if fields.iter().any(|f| f.ron == name && !f.skip) {
                        return false;
                    }
                    let at = src.below(mems.len() + 1);
                    mems.insert(
                        at,
                        Mem {
                            key: atom(STR, name),
                            val: atom(STR, src.pick(&["7", "\"x\"", "None", "[]"]).to_string()),
                            required: false,
                        },
                    );
                }
                true
            },
        )
        .then_some("unknown member"),
        _ => apply(src, n, &|x| matches!(x.slot, Some(Ty::Dur | Ty::Time)) && matches!(x.k, NK::Obj { .. }), &mut |src, x| {
            if let NK::Obj { mems, .. } = &mut x.k {
                if src.below(2) == 0 {
                    let i = src.below(mems.len());
                    let c = mems[i].clone();
                    mems.push(c)
                } else {
                    mems.push(Mem { key: atom(STR, "\"zz\""), val: atom(U64T, "1"), required: false })
                }
            }
            true
        })
        .then_some("bad duration member"),
    }
}
/// Mutates the tokens so that the text is no longer a well-formed document.
pub fn break_toks(src: &mut Src, t: &mut Vec<Tok>, fmt: Fmt) -> Option<&'static str> {
    let json = fmt == Fmt::Json;
    let pick = |src: &mut Src, t: &[Tok], want: &dyn Fn(usize, &Tok) -> bool| -> Option<usize> {
        let c: Vec<usize> = (0..t.len()).filter(|i| want(*i, &t[*i])).collect();
        if c.is_empty() {
            None
        } else {
            Some(*src.pick(&c))
        }
    };
    let mk = |s: &str| Tok { s: s.into(), role: Role::Atom, skipped: false };
    match src.below(10) {
        8 => {
            // what follows must not be a whole value of the same type (text after the document is unclaimed)
            let next: Vec<bool> = (0..t.len())
                .map(|i| {
                    t.get(i + 1).is_some_and(|n| n.role == Role::Atom && !matches!(&n.s[..], "null" | "None" | "()"))
                        || (i > 0 && t[i - 1].role == Role::Colon && t[i].s != "(")
                })
                .collect();
            let i = pick(src, t, &|i, x| x.role == Role::Open && !x.skipped && next[i])?;
            t.remove(i);
            Some("missing open bracket")
        }
        9 => {
            let i = pick(src, t, &|_, x| x.role == Role::Open && !x.skipped)?;
            let all: &[&str] = if json { &["[", "{"] } else { &["[", "{", "("] };
            let c: Vec<&&str> = all.iter().filter(|c| **c != t[i].s).collect();
            t[i].s = src.pick(&c).to_string();
            Some("mismatched open bracket")
        }
        0 => {
            let i = pick(src, t, &|_, x| x.role == Role::Comma && !x.skipped)?;
            t.remove(i);
            Some("missing comma")
        }
        1 => {
            let i = pick(src, t, &|_, x| matches!(x.role, Role::Comma | Role::TrailComma) && !x.skipped)?;
            t.insert(i, mk(","));
            Some("double comma")
        }
        2 => {
            let i = pick(src, t, &|_, x| x.role == Role::Open && !x.skipped)?;
            t.insert(i + 1, mk(","));
            Some("leading comma")
        }
        3 => {
            let i = pick(src, t, &|_, x| x.role == Role::Colon && !x.skipped)?;
            if src.below(2) == 0 {
                t.remove(i);
                Some("missing colon")
            } else {
                t.insert(i, mk(":"));
                Some("double colon")
            }
        }
        4 => {
            let i = pick(src, t, &|_, x| matches!(x.role, Role::Close) && !x.skipped)?;
            let all: &[&str] = if json { &["]", "}"] } else { &["]", "}", ")"] };
            let c: Vec<&&str> = all.iter().filter(|c| **c != t[i].s).collect();
            t[i].s = src.pick(&c).to_string();
            Some("mismatched bracket")
        }
        5 => {
            let i = pick(src, t, &|_, x| matches!(x.role, Role::Close) && !x.skipped)?;
            t.remove(i);
            Some("missing bracket")
        }
        6 => {
            // a stray token before an element, separator or bracket
            let i = pick(src, t, &|_, x| !x.skipped && x.role != Role::Close)?;
            let s = if json {
                if t.get(i).is_some_and(|x| x.s.starts_with('"')) || i == 0 {
                    *src.pick(&[":", ","])
                } else {
                    "\"zz?\""
                }
            } else {
                *src.pick(&["'c'", ":", "'\\n'"])
            };
            t.insert(i, mk(s));
            Some("stray token")
        }
        _ => {
            let i = pick(src, t, &|_, x| x.s.starts_with('"'))?;
            let bad = *src.pick(&[
                "\\ud800", "\\udc00", "\\ud800\\ud800", "\\udc00\\ud800", "\\ud83dx", "\\ud83d\\n", "\\u12g4", "\\u+123", "\\u 123", "\\u12", "\\u", "\\uD8",
                "\\ud800\\u0041", "\\ud83d\\ude0", "\\u-001", "\\uDBFF\\uE000",
            ]);
            let s = &t[i].s;
            let body: Vec<char> = s[1..s.len() - 1].chars().collect();
            // not in the middle of an escape
            let at = if src.below(2) == 0 { 0 } else { body.len() };
            let mut n = String::from("\"");
            n.extend(&body[..at]);
            n.push_str(bad);
            n.extend(&body[at..]);
            n.push('"');
            // `\u12` followed by hex digits would be complete
            if at == 0 && body.first().is_some_and(|c| c.is_ascii_hexdigit() || *c == '\\') {
                n = format!("\"{}\"", bad);
            }
            t[i].s = n;
            Some("bad escape")
        }
    }
}
