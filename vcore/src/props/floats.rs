//! Floats in text.
use crate::engine::*;
use crate::ensure;
use crate::gen;
use crate::text::spell_decimal;
use crate::val::Fmt;
use nanoserde::*;
use std::cmp::Ordering;

// ---------------------------------------------------------------- exact arithmetic
/// Natural number, little-endian.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Nat(Vec<u32>);
impl Nat {
    pub fn from(mut x: u64) -> Nat {
        let mut v = vec![];
        while x > 0 {
            v.push(x as u32);
            x >>= 32;
        }
        Nat(v)
    }
    fn trim(mut self) -> Nat {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
        self
    }
    pub fn mul_add(&mut self, m: u32, a: u32) {
        let mut c = a as u64;
        for x in self.0.iter_mut() {
            let v = *x as u64 * m as u64 + c;
            *x = v as u32;
            c = v >> 32;
        }
        if c > 0 {
            self.0.push(c as u32)
        }
    }
    pub fn pow10(&mut self, mut n: u64) {
        while n >= 9 {
            self.mul_add(1_000_000_000, 0);
            n -= 9
        }
        for _ in 0..n {
            self.mul_add(10, 0)
        }
    }
    pub fn shl(&mut self, n: u64) {
        if self.0.is_empty() {
            return;
        }
        let (w, b) = ((n / 32) as usize, (n % 32) as u32);
        if b > 0 {
            self.mul_add(1 << b, 0)
        }
        self.0.splice(0..0, std::iter::repeat(0).take(w));
    }
    pub fn cmp(&self, o: &Nat) -> Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
    /// (quotient digits, remainder) by 10
    pub fn digits(mut self) -> String {
        let mut out: Vec<u8> = vec![];
        self = self.trim();
        while !self.0.is_empty() {
            let mut r = 0u64;
            for x in self.0.iter_mut().rev() {
                let v = (r << 32) | *x as u64;
                *x = (v / 1_000_000_000) as u32;
                r = v % 1_000_000_000;
            }
            self = self.trim();
            for _ in 0..9 {
                out.push(b'0' + (r % 10) as u8);
                r /= 10
            }
        }
        while out.last() == Some(&b'0') {
            out.pop();
        }
        out.reverse();
        String::from_utf8(out).unwrap()
    }
}
/// A decimal literal: sign, digits d and exponent x, standing for d * 10^x.
#[derive(Clone)]
pub struct Dec {
    neg: bool,
    d: String,
    x: i64,
}
/// Compares d * 10^x with m * 2^e.
fn cmp_dec_bin(d: &str, x: i64, m: u64, e: i64) -> Ordering {
    let d = d.trim_start_matches('0');
    if d.is_empty() || m == 0 {
        return (!d.is_empty()).cmp(&(m != 0));
    }
    // magnitudes first: avoids giant powers
    let top10 = d.len() as i64 + x; // value < 10^top10, >= 10^(top10-1)
    if top10 > 400 {
        return Ordering::Greater;
    }
    if top10 < -400 {
        return Ordering::Less;
    }
    let mut a = Nat(vec![]);
    let b9 = d.as_bytes();
    for c in b9.chunks(9) {
        let v: u32 = std::str::from_utf8(c).unwrap().parse().unwrap();
        a.mul_add(10u32.pow(c.len() as u32), v);
    }
    let mut b = Nat::from(m);
    if x >= 0 {
        a.pow10(x as u64)
    } else {
        b.pow10((-x) as u64)
    }
    if e >= 0 {
        b.shl(e as u64)
    } else {
        a.shl((-e) as u64)
    }
    a.cmp(&b)
}
#[derive(Clone, Copy)]
pub struct F {
    name: &'static str,
    mant: u32,
    emin: i64, // exponent of the last place of the smallest
    inf: u64,  // bits of infinity
    sign: u64,
}
pub const F64: F = F { name: "f64", mant: 52, emin: -1074, inf: 0x7ff0000000000000, sign: 1 << 63 };
pub const F32: F = F { name: "f32", mant: 23, emin: -149, inf: 0x7f800000, sign: 1 << 31 };
/// |bits| as m * 2^e; infinity as the power of two after the largest number.
fn parts(f: F, bits: u64) -> (u64, i64) {
    let b = bits & !f.sign;
    let e = b >> f.mant;
    let m = b & ((1 << f.mant) - 1);
    if e == 0 {
        (m, f.emin)
    } else {
        (m | 1 << f.mant, f.emin + e as i64 - 1)
    }
}
/// Is `bits` the float nearest to the literal (ties to even)?
fn nearest(f: F, l: &Dec, bits: u64) -> bool {
    if (bits & f.sign != 0) != l.neg {
        return false;
    }
    let b = bits & !f.sign;
    if b > f.inf {
        return false;
    }
    let even = b & 1 == 0;
    // below: midpoint with the previous number
    if b > 0 {
        let (m, e) = parts(f, b - 1);
        let (m2, e2) = parts(f, b);
        // midpoint of consecutive floats: with the lower one's exponent
        let up = if e2 == e { m2 } else { m2 << (e2 - e) };
        match cmp_dec_bin(&l.d, l.x, m + up, e - 1) {
            Ordering::Less => return false,
            Ordering::Equal if !even => return false,
            _ => {}
        }
    }
    if b < f.inf {
        let (m, e) = parts(f, b);
        let (m2, e2) = parts(f, b + 1);
        let up = if e2 == e { m2 } else { m2 << (e2 - e) };
        match cmp_dec_bin(&l.d, l.x, m + up, e - 1) {
            Ordering::Greater => return false,
            Ordering::Equal if !even => return false,
            _ => {}
        }
    }
    true
}
/// Exact decimal of m * 2^e: digits and exponent of ten.
fn exact(m: u64, e: i64) -> (String, i64) {
    let mut n = Nat::from(m);
    if e >= 0 {
        n.shl(e as u64);
        (n.digits(), 0)
    } else {
        // m / 2^k = m * 5^k / 10^k
        for _ in 0..-e {
            n.mul_add(5, 0)
        }
        (n.digits(), e)
    }
}

fn std_number(s: &str) -> bool {
    let b = s.as_bytes();
    let mut i = 0;
    if b.get(i) == Some(&b'-') {
        i += 1
    }
    let digits = |i: &mut usize| {
        let a = *i;
        while b.get(*i).is_some_and(|c| c.is_ascii_digit()) {
            *i += 1
        }
        *i - a
    };
    let a = i;
    let n = digits(&mut i);
    if n == 0 || (n > 1 && b[a] == b'0') {
        return false;
    }
    if b.get(i) == Some(&b'.') {
        i += 1;
        if digits(&mut i) == 0 {
            return false;
        }
    }
    if matches!(b.get(i), Some(b'e' | b'E')) {
        i += 1;
        if matches!(b.get(i), Some(b'+' | b'-')) {
            i += 1
        }
        if digits(&mut i) == 0 {
            return false;
        }
    }
    i == b.len()
}
fn read(f: F, s: &str, json: bool) -> Result<u64, String> {
    match (f.mant == 23, json) {
        (true, true) => f32::deserialize_json(s).map(|x| x.to_bits() as u64).map_err(|e| format!("{:?}", e)),
        (true, false) => f32::deserialize_ron(s).map(|x| x.to_bits() as u64).map_err(|e| format!("{:?}", e)),
        (false, true) => f64::deserialize_json(s).map(|x| x.to_bits()).map_err(|e| format!("{:?}", e)),
        (false, false) => f64::deserialize_ron(s).map(|x| x.to_bits()).map_err(|e| format!("{:?}", e)),
    }
}
/// Inside something else, followed by different characters.
fn read_in(f: F, s: &str, json: bool) -> Result<Vec<u64>, String> {
    let doc = format!("[{s},{s} , {s}\n,{s}]");
    match (f.mant == 23, json) {
        (true, true) => <[f32; 4]>::deserialize_json(&doc).map(|x| x.iter().map(|x| x.to_bits() as u64).collect()).map_err(|e| format!("{:?}", e)),
        (true, false) => Vec::<f32>::deserialize_ron(&doc).map(|x| x.iter().map(|x| x.to_bits() as u64).collect()).map_err(|e| format!("{:?}", e)),
        (false, true) => Vec::<f64>::deserialize_json(&doc).map(|x| x.iter().map(|x| x.to_bits()).collect()).map_err(|e| format!("{:?}", e)),
        (false, false) => Vec::<Option<f64>>::deserialize_ron(&doc).map(|x| x.iter().map(|x| x.unwrap().to_bits()).collect()).map_err(|e| format!("{:?}", e)),
    }
}
fn write(f: F, bits: u64, json: bool) -> String {
    match (f.mant == 23, json) {
        (true, true) => f32::from_bits(bits as u32).serialize_json(),
        (true, false) => f32::from_bits(bits as u32).serialize_ron(),
        (false, true) => f64::from_bits(bits).serialize_json(),
        (false, false) => f64::from_bits(bits).serialize_ron(),
    }
}
fn trip(f: F, bits: u64) -> R {
    for json in [true, false] {
        let s = write(f, bits, json);
        let n = if json { "JSON" } else { "RON" };
        if json {
            ensure!(std_number(&s), "{} {:#x} is written in JSON as {}", f.name, bits, s);
        }
        match read(f, &s, json) {
            Ok(b) => ensure!(b == bits, "{} {:#x} is written in {} as {}, read back as {:#x}", f.name, bits, n, s, b),
            Err(m) => return fail(format!("{} {:#x} is written in {} as {}, rejected: {}", f.name, bits, n, s, m)),
        }
    }
    Ok(())
}
fn finite(f: F, src: &mut Src) -> u64 {
    if f.mant == 23 {
        gen::f32bits(src, true) as u64
    } else {
        gen::f64bits(src, true)
    }
}
fn bump(d: &mut Vec<u8>, up: bool) {
    // +-1 in the last digit
    for c in d.iter_mut().rev() {
        if up {
            if *c == b'9' {
                *c = b'0'
            } else {
                *c += 1;
                return;
            }
        } else if *c == b'0' {
            *c = b'9'
        } else {
            *c -= 1;
            return;
        }
    }
    if up {
        d.insert(0, b'1')
    }
}
/// A decimal literal that is hard to round for `f`.
fn hard(f: F, src: &mut Src) -> (Dec, &'static str) {
    let neg = src.below(2) == 1;
    let r = match src.below(8) {
        0..=3 => {
            // the midpoint between neighbours, or right next to it
            let mut b = finite(f, src) & !f.sign;
            if src.chance(1, 6) {
                b = f.inf - 1 - src.below(2) as u64
            }
            if src.chance(1, 6) {
                b = src.below(4) as u64
            }
            let (m, e) = parts(f, b);
            let (m2, e2) = parts(f, b + 1);
            let up = if e2 == e { m2 } else { m2 << (e2 - e) };
            let (d, x) = exact(m + up, e - 1);
            let mut d = d.into_bytes();
            let mut x = x;
            let how = src.below(6);
            let k = match how {
                0 => "midpoint",
                1 | 2 => {
                    // a digit far behind
                    let z = src.below(40);
                    let add = z + 1;
                    d.extend(std::iter::repeat(b'0').take(add));
                    x -= add as i64;
                    bump(&mut d, how == 1);
                    "midpoint and a bit"
                }
                3 => {
                    bump(&mut d, true);
                    "last digit of midpoint up"
                }
                4 => {
                    bump(&mut d, false);
                    "last digit of midpoint down"
                }
                _ => {
                    let keep = src.range(1, d.len());
                    x += (d.len() - keep) as i64;
                    d.truncate(keep);
                    "midpoint cut"
                }
            };
            (String::from_utf8(d).unwrap(), x, k)
        }
        4 => {
            // the exact value of a float, maybe cut to n digits
            let (m, e) = parts(f, finite(f, src));
            let (mut d, mut x) = exact(m, e);
            if src.chance(2, 3) && d.len() > 1 {
                let keep = src.range(1, d.len());
                x += (d.len() - keep) as i64;
                d.truncate(keep)
            }
            (d, x, "exact value, cut")
        }
        5 => {
            // integer of any size
            let most = if src.chance(1, 8) { 330 } else { 40 };
            let n = src.range(1, most);
            let mut s = String::new();
            for i in 0..n {
                s.push((b'0' + if i == 0 { 1 + src.below(9) as u8 } else { src.below(10) as u8 }) as char)
            }
            (s, 0, "integer")
        }
        6 => {
            let p = *src.pick(&[24u32, 53, 63, 64, 65, 100]);
            let v = (1u128 << p) + src.below(9) as u128 - 4;
            (v.to_string(), 0, "integer near a power of two")
        }
        _ => {
            let n = src.range(1, 20);
            let mut s = String::new();
            for _ in 0..n {
                s.push((b'0' + src.below(10) as u8) as char)
            }
            let range = if f.mant == 23 { 60 } else { 345 };
            (s, src.below(2 * range) as i64 - range as i64 - n as i64 / 2, "random digits")
        }
    };
    (Dec { neg, d: if r.0.is_empty() { "0".into() } else { r.0 }, x: r.1 }, r.2)
}

pub fn subs() -> Vec<Sub> {
    vec![
        Sub::new("trip", 300_000, 20_000_000, |src, ctx| {
            let f = *src.pick(&[F64, F32]);
            let b = finite(f, src);
            ctx.eval();
            if b & !f.sign > 0 {
                ctx.nontrivial(&(b ^ f.mant as u64).to_le_bytes())
            }
            ctx.sample(|| format!("{} {:#x} = {}", f.name, b, write(f, b, true)));
            trip(f, b)
        }),
        // residue classes of all f32 bit patterns: 4096 of them are all
        Sub::indexed("all-f32", 32, 4096, |src, ctx| {
            let i = src.below(4096) as u64;
            let i = (i * 2_654_435_761) & 4095;
            for k in 0..1u64 << 20 {
                let b = k << 12 | i;
                if k & 0xffff == 0 {
                    watchdog_kick()
                }
                if f32::from_bits(b as u32).is_finite() {
                    ctx.eval();
                    trip(F32, b)?
                }
            }
            ctx.label("block of 2^20 f32 bit patterns");
            Ok(())
        }),
        Sub::new("literals", 100_000, 4_000_000, |src, ctx| {
            let f = *src.pick(&[F64, F32]);
            let (l, how) = hard(f, src);
            let json = src.below(2) == 0;
            let d = l.d.trim_start_matches('0').to_string();
            let s = if d.is_empty() {
                format!("{}0", if l.neg { "-" } else { "" })
            } else if how.starts_with("integer") && src.chance(2, 3) {
                format!("{}{}", if l.neg { "-" } else { "" }, d)
            } else {
                // first digit's exponent
                let e = d.len() as i64 - 1 + l.x;
                spell_decimal(src, l.neg, &d, e, if json { Fmt::Json } else { Fmt::Ron })
            };
            ctx.eval();
            ctx.nontrivial(format!("{}{}{}", f.name, json, s).as_bytes());
            ctx.label(how);
            ctx.sample(|| format!("{} from {} ({})", f.name, s, how));
            let n = if json { "JSON" } else { "RON" };
            match read(f, &s, json) {
                Ok(b) => {
                    if b & !f.sign == f.inf && nearest(f, &l, b) {
                        ctx.label("beyond the largest");
                        return Ok(());
                    }
                    ensure!(nearest(f, &l, b), "{} from {} {} is {:#x}, not the nearest {}", f.name, n, s, b, f.name);
                    match read_in(f, &s, json) {
                        Ok(v) => ensure!(v.iter().all(|x| *x == b), "{} from {} {} is {:#x}, in a list {:#x?}", f.name, n, s, b, v),
                        Err(m) => return fail(format!("{} from {} {} is rejected in a list: {}", f.name, n, s, m)),
                    }
                }
                Err(m) => {
                    // a literal beyond the largest finite number may be refused
                    if nearest(f, &l, f.inf | if l.neg { f.sign } else { 0 }) {
                        return Ok(());
                    }
                    return fail(format!("{} from {} {} is rejected: {}", f.name, n, s, m));
                }
            }
            Ok(())
        }),
    ]
}
