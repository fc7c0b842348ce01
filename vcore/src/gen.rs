//! Schema-driven value generation.
use crate::engine::Src;
use crate::val::*;

#[derive(Clone, Copy)]
pub struct Cfg {
    /// only finite floats
    pub finite: bool,
    /// times before the epoch too
    pub pre_epoch: bool,
}
pub const BIN: Cfg = Cfg { finite: false, pre_epoch: false };
pub const TEXT: Cfg = Cfg { finite: true, pre_epoch: false };

pub fn uint(src: &mut Src, bits: u32) -> u128 {
    let max = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    let v = match src.below(6) {
        0 => src.below(20) as u128,
        1 => {
            // around a power of two
            let p = src.below(bits as usize + 1) as u32;
            let b = if p == 128 { 0 } else { 1u128 << p };
            b.wrapping_add(src.below(5) as u128).wrapping_sub(2)
        }
        2 => max - src.below(4) as u128,
        3 => {
            // around a power of ten
            let p = src.below(39) as u32;
            10u128.pow(p).wrapping_add(src.below(3) as u128).wrapping_sub(1)
        }
        4 => src.below(256) as u128 * (max / 255),
        _ => (src.bits() as u128) << 64 | src.bits() as u128,
    };
    v & max
}
pub fn int(src: &mut Src, bits: u32) -> i128 {
    let u = uint(src, bits);
    // sign extend
    let sh = 128 - bits;
    let v = ((u << sh) as i128) >> sh;
    match src.below(3) {
        0 => v,
        1 => v.wrapping_neg() << sh >> sh,
        _ => {
            let min = i128::MIN >> sh;
            if src.chance(1, 4) {
                min + src.below(3) as i128
            } else {
                v
            }
        }
    }
}
pub fn f64bits(src: &mut Src, finite: bool) -> u64 {
    let b = match src.below(9) {
        0 => (src.below(41) as f64 - 20.0).to_bits(),
        1 => {
            let m = src.below(20001) as f64 - 10000.0;
            let d = 10f64.powi(src.below(9) as i32);
            (m / d).to_bits()
        }
        2 => *src.pick(&[
            0x8000000000000000,
            1,
            0x000fffffffffffff,
            0x0010000000000000,
            0x7fefffffffffffff,
            0xffefffffffffffff,
            0x8000000000000001,
            0x3fb999999999999a,
            0x4340000000000000,
            0x43e0000000000000,
            0xc3e0000000000000,
            0x43f0000000000000,
            0x3ff0000000000001,
            0x3fefffffffffffff,
            0x444b1ae4d6e2ef50,
            0x4341c37937e08000,
            0x3f1a36e2eb1c432d,
            0x3ee4f8b588e368f1,
        ]),
        3 => {
            // any exponent, few mantissa bits
            let s = (src.below(2) as u64) << 63;
            let e = (src.below(2047) as u64) << 52;
            let m = (src.below(8) as u64) << (49 - src.below(50) as u64 % 50);
            s | e | (m & 0x000fffffffffffff)
        }
        4 => {
            // integers near 2^53, 2^63, 2^64
            let p = *src.pick(&[53u32, 63, 64, 24, 32]);
            let f = (2f64).powi(p as i32);
            (f.to_bits() as i64 + src.below(5) as i64 - 2) as u64
        }
        5 => (src.bits() as i64 as f64).to_bits(),
        6 => (10f64.powi(src.below(617) as i32 - 308)).to_bits() ^ src.below(2) as u64,
        7 => {
            if finite {
                src.bits()
            } else {
                *src.pick(&[
                    0x7ff8000000000000,
                    0x7ff0000000000000,
                    0xfff0000000000000,
                    0x7ff0000000000001,
                    0xffffffffffffffff,
                    0x7ff4000000000123,
                ])
            }
        }
        _ => src.bits(),
    };
    if finite && !f64::from_bits(b).is_finite() {
        b & 0x800fffffffffffff
    } else {
        b
    }
}
pub fn f32bits(src: &mut Src, finite: bool) -> u32 {
    let b = match src.below(7) {
        0 => (src.below(41) as f32 - 20.0).to_bits(),
        1 => {
            let m = src.below(20001) as f32 - 10000.0;
            let d = 10f32.powi(src.below(6) as i32);
            (m / d).to_bits()
        }
        2 => *src.pick(&[
            0x80000000, 1, 0x007fffff, 0x00800000, 0x7f7fffff, 0xff7fffff, 0x80000001, 0x3dcccccd, 0x4b800000, 0x4b7fffff,
            0x5f000000, 0xdf000000, 0x5f800000, 0x3f800001, 0x3f7fffff,
        ]),
        3 => {
            if finite {
                src.bits() as u32
            } else {
                *src.pick(&[0x7fc00000, 0x7f800000, 0xff800000, 0x7f800001, 0xffffffff, 0x7fa00123])
            }
        }
        4 => (10f32.powi(src.below(77) as i32 - 38)).to_bits() ^ src.below(2) as u32,
        5 => (src.bits() as i32 as f32).to_bits(),
        _ => src.bits() as u32,
    };
    if finite && !f32::from_bits(b).is_finite() {
        b & 0x807fffff
    } else {
        b
    }
}
pub fn ch(src: &mut Src) -> char {
    match src.below(12) {
        0..=4 => (b'a' + src.below(26) as u8) as char,
        5 => (0x20 + src.below(0x5f) as u8) as char,
        6 => *src.pick(&['"', '\\', '/', '\'', '\n', '\r', '\t', '\u{8}', '\u{c}', '\0', '\u{7f}', '#', ',', ':', '{', '}', '[', ']', '(', ')']),
        7 => char::from_u32(src.below(0x20) as u32).unwrap(),
        8 => *src.pick(&[
            '\u{7f}', '\u{80}', '\u{9f}', '\u{a0}', '\u{ff}', '\u{100}', '\u{7ff}', '\u{800}', '\u{2028}', '\u{2029}', '\u{d7ff}', '\u{e000}',
            '\u{fdd0}', '\u{feff}', '\u{fffd}', '\u{fffe}', '\u{ffff}', '\u{10000}', '\u{1f600}', '\u{10ffff}', 'é', 'ß', '中', '\u{200d}',
        ]),
        9 => char::from_u32(0x80 + src.below(0x780) as u32).unwrap(),
        10 => char::from_u32(0x10000 + src.below(0x100000) as u32).unwrap(),
        _ => {
            let c = src.below(0x110000) as u32;
            char::from_u32(c).unwrap_or('\u{fffd}')
        }
    }
}
pub fn string(src: &mut Src) -> String {
    let n = match src.below(16) {
        0..=2 => 0,
        3..=11 => src.range(1, 6),
        12..=14 => src.range(1, 24),
        _ => src.range(20, 70),
    };
    match src.below(10) {
        0 => src
            .pick(&[
                "null", "true", "None", "//", "/*", "*/", "\\u0041", "\\", "\"", "secs", "nanos", "0", "{}", "[]", "a\\\"b", "\\n", "Some", "e", "key", "kéy",
                "\u{0}", "-1", "1e5", "é", "😀", "a b", "'", "\"\"\"", "a=b", "#",
            ])
            .to_string(),
        1..=4 => (0..n).map(|_| (b'a' + src.below(26) as u8) as char).collect(),
        _ => (0..n).map(|_| ch(src)).collect(),
    }
}
pub fn dur(src: &mut Src) -> (u64, u32) {
    let s = uint(src, 64) as u64;
    let n = match src.below(4) {
        0 => 0,
        1 => *src.pick(&[1, 999_999_999, 999_999_998, 500_000_000, 1_000, 1_000_000]),
        _ => src.below(1_000_000_000) as u32,
    };
    (s, n)
}
fn len(src: &mut Src, budget: &mut i64) -> usize {
    let n = match src.below(20) {
        0..=3 => 0,
        4..=8 => 1,
        9..=15 => src.range(2, 4),
        16..=18 => src.range(3, 12),
        _ => src.range(10, 40),
    };
    n.min((*budget).max(0) as usize)
}
/// A value of `ty` of roughly at most `budget` nodes.
pub fn value(src: &mut Src, ty: TyRef, cfg: Cfg) -> Val {
    if wants_large() && can_grow(ty) && src.chance(4, 5) {
        return large(src, ty, cfg);
    }
    let mut budget = match src.below(10) {
        0..=5 => 24,
        6..=8 => 60,
        _ => 400,
    };
    val(src, ty, cfg, &mut budget, 0)
}
pub fn small(src: &mut Src, ty: TyRef, cfg: Cfg) -> Val {
    if wants_large() && can_grow(ty) && src.chance(1, 2) {
        return large(src, ty, cfg);
    }
    val(src, ty, cfg, &mut 10, 0)
}
fn val(src: &mut Src, ty: TyRef, cfg: Cfg, budget: &mut i64, depth: usize) -> Val {
    *budget -= 1;
    if depth > 60 {
        *budget = (*budget).min(0)
    }
    let d = depth + 1;
    match ty {
        Ty::Unit => Val::Unit,
        Ty::Bool => Val::Bool(src.below(2) == 1),
        Ty::U(b) => Val::U(uint(src, *b as u32)),
        Ty::I(b) => Val::I(int(src, *b as u32)),
        Ty::F32 => Val::F32(f32bits(src, cfg.finite)),
        Ty::F64 => Val::F64(f64bits(src, cfg.finite)),
        Ty::Str => Val::Str(string(src)),
        Ty::Dur => {
            let (s, n) = dur(src);
            Val::Dur(s, n)
        }
        Ty::Time => {
            if cfg.pre_epoch && src.chance(1, 8) {
                return Val::Time(None);
            }
            let (s, n) = dur(src);
            Val::Time(Some((s & (i64::MAX as u64), n)))
        }
        Ty::Opt(t) => {
            if *budget <= 0 || src.chance(1, 3) {
                Val::Opt(None)
            } else {
                Val::Opt(Some(Box::new(val(src, t, cfg, budget, d))))
            }
        }
        Ty::Seq(t) => {
            let n = len(src, budget);
            Val::Seq((0..n).map(|_| val(src, t, cfg, budget, d)).collect())
        }
        Ty::Set(_, t) => {
            let n = len(src, budget);
            let mut x: Vec<Val> = (0..n).map(|_| val(src, t, cfg, budget, d)).collect();
            x.sort();
            x.dedup();
            Val::Set(x)
        }
        Ty::Arr(n, t) => Val::Arr((0..*n).map(|_| val(src, t, cfg, budget, d)).collect()),
        Ty::Tup(ts) => Val::Tup(ts.iter().map(|t| val(src, t, cfg, budget, d)).collect()),
        Ty::Map(_, k, t) => {
            let n = len(src, budget);
            let mut m = std::collections::BTreeMap::new();
            for _ in 0..n {
                let a = val(src, k, cfg, budget, d);
                let b = val(src, t, cfg, budget, d);
                m.insert(a, b);
            }
            Val::Map(m.into_iter().collect())
        }
        Ty::Struct(def) => Val::Rec(def.fields.iter().map(|f| val(src, (f.ty)(), cfg, budget, d)).collect()),
        Ty::Enum(def) => {
            // variants of recursive enums that end the recursion come first
            let i = if *budget <= 0 { 0 } else { src.below(def.variants.len()) };
            Val::Enum(i, def.variants[i].fields.iter().map(|f| val(src, (f.ty)(), cfg, budget, d)).collect())
        }
    }
}

/// A length beyond what the other generators reach, often next to where a counter wraps.
thread_local! {
    static LARGE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static EXTRA: std::cell::Cell<u8> = const { std::cell::Cell::new(0) };
}
/// Runs `f` with values that are mostly large.
pub fn with_large<T>(f: impl FnOnce() -> T) -> T {
    struct Back;
    impl Drop for Back {
        fn drop(&mut self) {
            LARGE.with(|l| l.set(false))
        }
    }
    LARGE.with(|l| l.set(true));
    EXTRA.with(|l| l.set(2));
    let _b = Back;
    f()
}
/// Whether to add something large that means nothing, twice a case at most.
pub fn wants_extra() -> bool {
    wants_large() && EXTRA.with(|l| l.replace(l.get().saturating_sub(1))) > 0
}
pub fn wants_large() -> bool {
    LARGE.with(|l| l.get())
}
pub fn big(src: &mut Src) -> usize {
    match src.below(8) {
        0..=2 => src.range(41, 700),
        3 => src.range(253, 260),
        4 => src.range(700, 9_000),
        5 => *src.pick(&[1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16_384, 32_767, 32_768, 32_769]),
        6 => src.range(65_531, 65_541),
        _ => src.range(9_000, 140_000),
    }
}
pub fn big_string(src: &mut Src, n: usize) -> String {
    let mut r = Src::random(src.bits(), None);
    match src.below(4) {
        0 => "x".repeat(n),
        1 => (0..n).map(|_| (b' ' + r.below(95) as u8) as char).collect(),
        2 => (0..n).map(|_| ch(&mut r)).collect(),
        _ => {
            // one odd character somewhere
            let mut s: String = "y".repeat(n);
            let at = src.below(n + 1);
            s.insert(at, ch(&mut r));
            s
        }
    }
}
/// Whether `large` can make something large of the type.
pub fn can_grow(ty: TyRef) -> bool {
    grows(ty, 3)
}
fn grows(ty: TyRef, d: usize) -> bool {
    match ty {
        Ty::Seq(_) | Ty::Str => true,
        // the element type has to have enough values
        Ty::Set(_, t) | Ty::Map(_, t, _) => many(t),
        _ if d == 0 => false,
        Ty::Opt(t) => grows(t, d - 1),
        Ty::Arr(n, t) => *n > 0 && grows(t, d - 1),
        Ty::Tup(ts) => ts.iter().any(|t| grows(t, d - 1)),
        Ty::Struct(x) => x.fields.iter().any(|f| field_grows(f, d)),
        Ty::Enum(x) => x.variants.iter().any(|v| v.fields.iter().any(|f| field_grows(f, d))),
        _ => false,
    }
}
fn field_grows(f: &FieldDef, d: usize) -> bool {
    !f.skip && grows((f.ty)(), d - 1)
}
fn many(t: TyRef) -> bool {
    match t {
        Ty::U(b) | Ty::I(b) => *b >= 32,
        Ty::Str | Ty::Dur => true,
        Ty::Tup(ts) => ts.iter().any(|t| many(t)),
        Ty::Seq(_) => true,
        _ => false,
    }
}
/// A value with a container, string or map of many elements.
pub fn large(src: &mut Src, ty: TyRef, cfg: Cfg) -> Val {
    let n = big(src);
    grown(src, ty, cfg, n, 3)
}
fn grown(src: &mut Src, ty: TyRef, cfg: Cfg, n: usize, d: usize) -> Val {
    // the elements follow from one choice, so that shrinking goes for the length
    let mut r = Src::random(src.bits(), None);
    let r = &mut r;
    let leaf = |r: &mut Src, t: TyRef| val(r, t, cfg, &mut 3, 0);
    match ty {
        Ty::Opt(t) if d > 0 && grows(t, d - 1) => Val::Opt(Some(Box::new(grown(src, t, cfg, n, d - 1)))),
        Ty::Str => Val::Str(big_string(src, n)),
        Ty::Seq(t) => {
            if d > 0 && grows(t, d - 1) && src.chance(1, 3) {
                // one large element among few
                let mut x: Vec<Val> = (0..src.below(4)).map(|_| leaf(r, t)).collect();
                let at = src.below(x.len() + 1);
                x.insert(at, grown(src, t, cfg, n, d - 1));
                Val::Seq(x)
            } else {
                let mut room = ROOM;
                Val::Seq((0..n).map(|_| leaf(r, t)).take_while(|v| affordable(v, &mut room)).collect())
            }
        }
        Ty::Set(_, t) => {
            let mut room = ROOM;
            let mut x: Vec<Val> = (0..n).map(|i| distinct(r, t, cfg, i)).take_while(|v| affordable(v, &mut room)).collect();
            x.sort();
            x.dedup();
            Val::Set(x)
        }
        Ty::Map(_, k, t) => {
            let m: std::collections::BTreeMap<Val, Val> = if d > 0 && grows(t, d - 1) && src.chance(1, 3) {
                [(leaf(r, k), grown(src, t, cfg, n, d - 1))].into()
            } else {
                let mut room = ROOM;
                (0..n).map(|i| (distinct(r, k, cfg, i), leaf(r, t))).take_while(|(k, v)| affordable(k, &mut room) && affordable(v, &mut room)).collect()
            };
            Val::Map(m.into_iter().collect())
        }
        // one of the parts is large
        Ty::Arr(k, t) if d > 0 && *k > 0 && grows(t, d - 1) => {
            let mut x: Vec<Val> = (0..*k).map(|_| leaf(r, t)).collect();
            let at = src.below(*k);
            x[at] = grown(src, t, cfg, n, d - 1);
            Val::Arr(x)
        }
        Ty::Tup(ts) if d > 0 && ts.iter().any(|t| grows(t, d - 1)) => {
            let mut x: Vec<Val> = ts.iter().map(|t| leaf(r, t)).collect();
            let at: Vec<usize> = (0..ts.len()).filter(|i| grows(ts[*i], d - 1)).collect();
            let at = *src.pick(&at);
            x[at] = grown(src, ts[at], cfg, n, d - 1);
            Val::Tup(x)
        }
        Ty::Struct(def) if d > 0 && def.fields.iter().any(|f| field_grows(f, d)) => {
            Val::Rec(grown_fields(src, r, def.fields, cfg, n, d))
        }
        Ty::Enum(def) if d > 0 && def.variants.iter().any(|v| v.fields.iter().any(|f| field_grows(f, d))) => {
            let at: Vec<usize> = (0..def.variants.len()).filter(|i| def.variants[*i].fields.iter().any(|f| field_grows(f, d))).collect();
            let at = *src.pick(&at);
            Val::Enum(at, grown_fields(src, r, def.variants[at].fields, cfg, n, d))
        }
        _ => val(r, ty, cfg, &mut 24, 0),
    }
}
fn grown_fields(src: &mut Src, r: &mut Src, fields: &'static [FieldDef], cfg: Cfg, n: usize, d: usize) -> Vec<Val> {
    let mut x: Vec<Val> = fields.iter().map(|f| val(r, (f.ty)(), cfg, &mut 3, 0)).collect();
    let at: Vec<usize> = (0..fields.len()).filter(|i| field_grows(&fields[*i], d)).collect();
    let at = *src.pick(&at);
    x[at] = grown(src, (fields[at].ty)(), cfg, n, d - 1);
    x
}
/// Parts in one large value; elements with many parts make it shorter.
const ROOM: usize = 500_000;
fn affordable(v: &Val, room: &mut usize) -> bool {
    *room = room.saturating_sub(parts(v));
    *room > 0
}
fn parts(v: &Val) -> usize {
    match v {
        Val::Str(s) => 1 + s.len() / 8,
        Val::Opt(x) => 1 + x.as_ref().map_or(0, |x| parts(x)),
        Val::Seq(x) | Val::Set(x) | Val::Arr(x) | Val::Tup(x) | Val::Rec(x) | Val::Enum(_, x) => 1 + x.iter().map(parts).sum::<usize>(),
        Val::Map(x) => 1 + x.iter().map(|(k, v)| parts(k) + parts(v)).sum::<usize>(),
        _ => 1,
    }
}
fn distinct(r: &mut Src, t: TyRef, cfg: Cfg, i: usize) -> Val {
    match t {
        Ty::U(b) if *b >= 32 => Val::U(i as u128 * 3),
        Ty::I(b) if *b >= 32 => Val::I(i as i128 * 7 - 100_000),
        Ty::Str => Val::Str(format!("k{}", i)),
        Ty::Seq(t) => Val::Seq((0..3).map(|j| if let Ty::U(8) = t { Val::U((i >> (8 * j)) as u128 & 255) } else { val(r, t, cfg, &mut 2, 0) }).collect()),
        Ty::Tup(ts) => Val::Tup(ts.iter().map(|t| distinct(r, t, cfg, i)).collect()),
        _ => val(r, t, cfg, &mut 3, 0),
    }
}

pub fn boring(v: &Val) -> bool {
    match v {
        Val::Unit => true,
        Val::Bool(b) => !*b,
        Val::U(x) => *x == 0,
        Val::I(x) => *x == 0,
        Val::F32(x) => *x == 0,
        Val::F64(x) => *x == 0,
        Val::Str(s) => s.is_empty(),
        Val::Dur(a, b) => *a == 0 && *b == 0,
        Val::Time(t) => t.is_none_or(|t| t == (0, 0)),
        Val::Opt(o) => o.is_none(),
        Val::Seq(x) | Val::Set(x) => x.is_empty(),
        Val::Arr(x) | Val::Tup(x) | Val::Rec(x) => x.iter().all(boring),
        Val::Map(x) => x.is_empty(),
        Val::Enum(i, x) => *i == 0 && x.iter().all(boring),
    }
}

/// A fixed value of a type.
pub fn sample<T: Subject>(seed: u64) -> Val {
    val(&mut Src::random(seed, None), T::TY, Cfg { finite: true, pre_epoch: false }, &mut 10, 0)
}
