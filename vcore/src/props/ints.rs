//! Integers in text.
use super::Reg;
use crate::engine::*;
use crate::ensure;
use crate::reg::Entry;
use crate::val::*;
use std::collections::BTreeMap;

#[derive(Clone, Copy)]
struct IntT {
    name: &'static str,
    min: i128,
    max: i128,
    plain: Entry,
    /// inside other things: (before, after, entry, how to get the number out)
    vec: Entry,
    opt: Entry,
    tup: Entry,
    map: Entry,
    key: Entry,
    arr: Entry,
}
macro_rules! t {
    ($($t:ident)*) => { vec![$(IntT {
        name: stringify!($t), min: $t::MIN as i128, max: $t::MAX as i128,
        plain: crate::entry!($t; json ron),
        vec: crate::entry!(Vec<$t>; json ron),
        opt: crate::entry!(Option<$t>; json ron),
        tup: crate::entry!((u8, $t, bool); json ron),
        map: crate::entry!(BTreeMap<String, $t>; json ron),
        key: crate::entry!(BTreeMap<$t, bool>; json ron),
        arr: crate::entry!([$t; 2]; json ron),
    }),*] };
}
fn dec(e: &Entry, json: bool, s: &str) -> Result<Val, String> {
    super::text::de(e, json, s).map_err(|e| e.msg)
}
/// A decimal integer literal (sign, digits without leading zeros), near something interesting.
fn literal(src: &mut Src) -> (bool, String) {
    let mut neg = src.below(2) == 1;
    let digits = match src.below(6) {
        0 => src.below(300).to_string(),
        1 | 2 => {
            // around a power of two
            let p = *src.pick(&[7u32, 8, 15, 16, 31, 32, 53, 63, 64, 65, 66, 72, 96, 100, 126]);
            ((1u128 << p) + src.below(5) as u128 - 2).to_string()
        }
        3 => {
            let p = src.below(38) as u32;
            (10u128.pow(p) + src.below(3) as u128 - 1).to_string()
        }
        4 => {
            // many digits
            let n = src.range(17, 60);
            let mut s = String::new();
            s.push((b'1' + src.below(9) as u8) as char);
            for _ in 1..n {
                s.push((b'0' + src.below(10) as u8) as char)
            }
            s
        }
        _ => {
            // a type's bound plus a multiple of 2^8..2^64 : wraps to something valid
            let p = *src.pick(&[8u32, 16, 32, 64]);
            ((1u128 << p) * src.range(1, 5) as u128 + src.below(200) as u128).to_string()
        }
    };
    if digits == "0" {
        neg = false
    }
    (neg, digits)
}
fn value(neg: bool, d: &str) -> Option<i128> {
    if d.len() > 37 {
        None
    } else {
        let v: i128 = d.parse().unwrap();
        Some(if neg { -v } else { v })
    }
}
pub fn subs(_: Reg) -> Vec<Sub> {
    let ts = t!(u8 u16 u32 u64 usize i8 i16 i32 i64);
    let (t1, t2, t3, t4) = (ts.clone(), ts.clone(), ts.clone(), ts);
    vec![
        Sub::new("literal", 120_000, 4_000_000, move |src, ctx| {
            let t = src.pick(&t1);
            let json = src.below(2) == 0;
            let (neg, d) = literal(src);
            let v = value(neg, &d);
            let sign = if neg {
                "-"
            } else if !json && src.chance(1, 8) {
                "+"
            } else {
                ""
            };
            let lit = format!("{}{}", sign, d);
            let inr = v.filter(|v| *v >= t.min && *v <= t.max);
            let num = |v: i128| if t.min < 0 { Val::I(v) } else { Val::U(v as u128) };
            let (open, close) = if json { ('[', ']') } else { ('(', ')') };
            let ws = *src.pick(&["", " ", "\n", "/**/"]);
            let (e, text, want): (&Entry, String, Option<Val>) = match src.below(8) {
                0 | 1 => (&t.plain, format!("{ws}{lit}{ws}"), inr.map(num)),
                2 => (&t.vec, format!("[0,{lit}{ws},1]"), inr.map(|v| Val::Seq(vec![num(0), num(v), num(1)]))),
                3 => (&t.opt, format!("{lit}{ws}"), inr.map(|v| Val::Opt(Some(Box::new(num(v)))))),
                4 => (&t.tup, format!("{open}7,{lit}{ws},true{close}"), inr.map(|v| Val::Tup(vec![Val::U(7), num(v), Val::Bool(true)]))),
                5 => (&t.map, format!("{{\"a\":{lit}{ws},\"b\":2}}"), inr.map(|v| Val::Map(vec![(Val::Str("a".into()), num(v)), (Val::Str("b".into()), num(2))]))),
                6 => (&t.key, format!("{{{lit}{ws}:true}}"), inr.map(|v| Val::Map(vec![(num(v), Val::Bool(true))]))),
                _ => (&t.arr, format!("{open}{lit}{ws},{lit}{close}"), inr.map(|v| Val::Arr(vec![num(v), num(v)]))),
            };
            ctx.eval();
            ctx.nontrivial(format!("{} {} {}", e.name, json, text).as_bytes());
            ctx.label(if want.is_some() { "in range" } else { "out of range" });
            ctx.sample(|| format!("{} from {:?}", e.name, text));
            match (dec(e, json, &text), want) {
                (Ok(x), Some(w)) => ensure!(x == w, "{} from {} is {}", e.name, text, x.show()),
                (Ok(x), None) => return fail(format!("{} from {} is {}, but {} is no {}", e.name, text, x.show(), lit, t.name)),
                (Err(m), Some(_)) => return fail(format!("{} from {} is rejected: {}", e.name, text, m)),
                (Err(_), None) => {}
            }
            Ok(())
        }),
        Sub::new("not-integers", 15_000, 400_000, move |src, ctx| {
            let t = src.pick(&t2);
            let json = src.below(2) == 0;
            let (neg, d) = literal(src);
            let d = &d[..d.len().min(src.range(1, 25))];
            let tail = *src.pick(&[".0", ".5", "e0", "E1", "e-1", ".0e1", "e+2", "e19", ".00", "e99", ".999999999999999999999"]);
            let lit = format!("{}{}{}", if neg { "-" } else { "" }, d, tail);
            ctx.eval();
            ctx.nontrivial(format!("{} {} {}", t.name, json, lit).as_bytes());
            if let Ok(x) = dec(&t.plain, json, &lit) {
                return fail(format!("{} from {} is {}", t.name, lit, x.show()));
            }
            let l = format!("[{}]", lit);
            if let Ok(x) = dec(&t.vec, json, &l) {
                return fail(format!("Vec<{}> from {} is {}", t.name, l, x.show()));
            }
            Ok(())
        }),
        Sub::new("written", 40_000, 1_500_000, move |src, ctx| {
            let t = src.pick(&t3);
            let ty = (t.plain.ty)();
            let v = crate::gen::value(src, ty, crate::gen::TEXT);
            let want = match &v {
                Val::U(x) => x.to_string(),
                Val::I(x) => x.to_string(),
                _ => unreachable!(),
            };
            for json in [true, false] {
                ctx.eval();
                ctx.nontrivial(format!("{} {} {}", t.name, json, want).as_bytes());
                let s = super::text::ser(&t.plain, json, &v);
                ensure!(s == want, "{} {} is written as {}", t.name, want, s);
                match dec(&t.plain, json, &s) {
                    Ok(x) => ensure!(x == v, "{} {} comes back as {}", t.name, want, x.show()),
                    Err(m) => return fail(format!("{} {} is rejected: {}", t.name, want, m)),
                }
            }
            Ok(())
        }),
        // every literal from -70000 to 140000 for the narrow types, a block per case
        Sub::indexed("narrow", 84, 84, move |src, ctx| {
            let base = src.below(84) as i64 * 2500 - 70_000;
            for t in t4.iter() {
                for n in base..base + 2500 {
                    if n == 0 {
                        continue;
                    }
                    for json in [true, false] {
                        ctx.eval();
                        let s = n.to_string();
                        let inr = n as i128 >= t.min && n as i128 <= t.max;
                        let want = if t.min < 0 { Val::I(n as i128) } else { Val::U(n as u128) };
                        match dec(&t.plain, json, &s) {
                            Ok(x) => ensure!(inr && x == want, "{} from {} is {}", t.name, s, x.show()),
                            Err(m) => ensure!(!inr, "{} from {} is rejected: {}", t.name, s, m),
                        }
                    }
                }
            }
            ctx.label("exhaustive block");
            Ok(())
        }),
    ]
}
