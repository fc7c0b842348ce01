//! Nesting: values whose types contain themselves, and unknown members, many levels down.
use super::text::{clip, de, entries, fmt_of};
use super::Reg;
use crate::engine::*;
use crate::ensure;
use crate::gen;
use crate::reg::Entry;
use crate::text::*;
use crate::val::*;
use nanoserde::*;
use std::collections::BTreeMap;
use std::str::Chars;

macro_rules! wrap {
    ($t:ident, $in:ty) => {
        #[derive(Debug, Clone, PartialEq)]
        pub struct $t(pub $in);
        impl SerBin for $t {
            fn ser_bin(&self, o: &mut Vec<u8>) {
                self.0.ser_bin(o)
            }
        }
        impl DeBin for $t {
            fn de_bin(o: &mut usize, b: &[u8]) -> Result<Self, DeBinErr> {
                Ok($t(DeBin::de_bin(o, b)?))
            }
        }
        impl SerJson for $t {
            fn ser_json(&self, d: usize, s: &mut SerJsonState) {
                self.0.ser_json(d, s)
            }
        }
        impl DeJson for $t {
            fn de_json(s: &mut DeJsonState, i: &mut Chars) -> Result<Self, DeJsonErr> {
                Ok($t(DeJson::de_json(s, i)?))
            }
        }
        impl SerRon for $t {
            fn ser_ron(&self, d: usize, s: &mut SerRonState) {
                self.0.ser_ron(d, s)
            }
        }
        impl DeRon for $t {
            fn de_ron(s: &mut DeRonState, i: &mut Chars) -> Result<Self, DeRonErr> {
                Ok($t(DeRon::de_ron(s, i)?))
            }
        }
    };
}
wrap!(Lists, Vec<Lists>);
wrap!(Maps, BTreeMap<String, Maps>);
wrap!(Pairs, (u8, Vec<Pairs>));
wrap!(Boxes, Option<Box<(Boxes, u8)>>);

enum Any {
    L(Lists),
    M(Maps),
    P(Pairs),
    B(Boxes),
}
/// A value `n` levels deep, with something small beside the deep part here and there.
fn make(src: &mut Src, n: usize) -> Any {
    // one decision in so many levels, to keep cases short
    let every = *src.pick(&[1000, 50, 7]);
    let extra = |src: &mut Src, i: usize| if i % every == 1 { src.below(4) } else { 0 };
    match src.below(4) {
        0 => {
            let mut x = Lists(vec![]);
            for i in 0..n {
                let e = extra(src, i);
                let mut v = vec![x];
                if e & 1 > 0 {
                    v.push(Lists(vec![]))
                }
                if e & 2 > 0 {
                    v.insert(0, Lists(vec![]))
                }
                x = Lists(v)
            }
            Any::L(x)
        }
        1 => {
            let mut x = Maps(BTreeMap::new());
            for i in 0..n {
                let e = extra(src, i);
                let mut m = BTreeMap::new();
                m.insert("m".to_string(), x);
                if e & 1 > 0 {
                    m.insert("a\"".into(), Maps(BTreeMap::new()));
                }
                if e & 2 > 0 {
                    m.insert("z\u{1f600}".into(), Maps(BTreeMap::new()));
                }
                x = Maps(m)
            }
            Any::M(x)
        }
        2 => {
            let mut x = Pairs((7, vec![]));
            for i in 0..n {
                let e = extra(src, i);
                let mut v = vec![x];
                if e & 1 > 0 {
                    v.push(Pairs((1, vec![])))
                }
                x = Pairs((i as u8, v))
            }
            Any::P(x)
        }
        _ => {
            let mut x = Boxes(None);
            for i in 0..n {
                x = Boxes(Some(Box::new((x, i as u8))))
            }
            Any::B(x)
        }
    }
}
fn depth(src: &mut Src) -> usize {
    match src.below(4) {
        0 => src.range(1, 40),
        1 => src.range(30, 300),
        2 => *src.pick(&[31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025]),
        _ => src.range(300, 2000),
    }
}
macro_rules! each {
    ($a:expr, $x:ident, $e:expr) => {
        match $a {
            Any::L($x) => $e,
            Any::M($x) => $e,
            Any::P($x) => $e,
            Any::B($x) => $e,
        }
    };
}
fn same<T: PartialEq, E: std::fmt::Debug>(what: &str, n: usize, got: Result<T, E>, want: &T) -> R {
    match got {
        Ok(x) => {
            ensure!(&x == want, "{} {} levels deep came back different", what, n);
            Ok(())
        }
        Err(e) => fail(format!("{} {} levels deep is rejected: {:?}", what, n, e)),
    }
}
#[derive(Clone, Copy, PartialEq)]
pub enum F {
    Bin,
    Json,
    Ron,
}
fn one<T: PartialEq + Clone + SerBin + DeBin + SerJson + DeJson + SerRon + DeRon>(x: &T, f: F, n: usize) -> R {
    match f {
        F::Bin => same("a value", n, T::deserialize_bin(&x.serialize_bin()), x),
        F::Json => same("a value in JSON", n, T::deserialize_json(&x.serialize_json()), x),
        F::Ron => same("a value in RON", n, T::deserialize_ron(&x.serialize_ron()), x),
    }
}
/// A value comes back whatever its depth.
pub fn roundtrip(f: F) -> Sub {
    Sub::new("deep", 200, 4_000, move |src, ctx| {
        let n = depth(src);
        let a = make(src, n);
        ctx.eval();
        ctx.nontrivial(format!("{} {:?}", n, src.choices).as_bytes());
        ctx.label(if n >= 100 { "100 or more levels deep" } else { "less than 100 levels deep" });
        each!(&a, x, one(x, f, n))
    })
}
fn cut_one<T: 'static + SerBin + DeBin + SerJson + DeJson + SerRon + DeRon>(src: &mut Src, x: &T, f: F, n: usize) -> R {
    let show = |s: &str| fail(format!("a value {} levels deep, cut short or damaged, is accepted: {}", n, s));
    match f {
        F::Bin => {
            let mut b = x.serialize_bin();
            if std::any::TypeId::of::<T>() == std::any::TypeId::of::<Lists>() && src.below(2) == 0 {
                // every level announces far more than there is
                let l = *src.pick(&[1u64 << 16, 1000, 1 << 32, u64::MAX, 1 << 40, 5000]);
                b = l.to_le_bytes().repeat(n);
                let (r, _) = capped((4 << 20) + b.len() * 4096, || T::deserialize_bin(&b).is_ok());
                return if r { show(&format!("{} repeated", l)) } else { Ok(()) };
            }
            let c = src.below(b.len());
            let (r, _) = capped((4 << 20) + b.len() * 4096, || T::deserialize_bin(&b[..c]).is_ok());
            if r {
                return show(&format!("{} of {} bytes", c, b.len()));
            }
        }
        _ => {
            let json = f == F::Json;
            let s = if json { x.serialize_json() } else { x.serialize_ron() };
            let mut c = src.below(s.len());
            while !s.is_char_boundary(c) {
                c -= 1
            }
            // a part of `None`/`null` alone is no value either
            let mut t = s[..c].to_string();
            if src.chance(1, 2) {
                // closed by the wrong bracket
                t.push_str(src.pick::<&str>(&["]", "}", ")", ",", ":"]));
                if s.starts_with(&t) || t.len() > s.len() || s.trim_end().len() <= t.len() {
                    t.truncate(c)
                } else if s[c..].starts_with([']', '}', ')']) {
                    // what closes here is something else
                } else {
                    t.truncate(c)
                }
            }
            let (r, _) = capped((4 << 20) + t.len() * 4096, || if json { T::deserialize_json(&t).is_ok() } else { T::deserialize_ron(&t).is_ok() });
            if r {
                return show(&clip(&t));
            }
        }
    }
    Ok(())
}
/// Cut short or closed wrongly, it is an error, many levels down too.
pub fn cut(f: F) -> Sub {
    Sub::new("deep", 300, 6_000, move |src, ctx| {
        let n = depth(src);
        let a = make(src, n);
        // an absent option takes no bytes a prefix could lack
        ctx.eval();
        ctx.nontrivial(format!("{} {:?}", n, src.choices).as_bytes());
        each!(&a, x, cut_one(src, x, f, n))
    })
}
/// Members nobody asked for are passed over however deep they are, on an ordinary stack.
pub fn unknown(reg: Reg) -> Option<Sub> {
    let es: Vec<Entry> = entries(reg, true)
        .into_iter()
        .filter(|e| matches!((e.ty)(), Ty::Struct(d) if d.kind == Kind::Named && !d.transparent))
        .collect();
    if es.is_empty() {
        return None;
    }
    Some(Sub::new("deep-unknown", 100, 1_500, move |src, ctx| {
        let e = *src.pick(&es);
        let ty = (e.ty)();
        let mut v = gen::small(src, ty, gen::TEXT);
        let node = build(src, &mut v, ty, fmt_of(true), LOOSE);
        let mut t = vec![];
        flatten(src, &node, false, &mut t);
        let (s, at) = join(src, &t, Space::Tight);
        let n = match src.below(3) {
            0 => src.range(1, 300),
            1 => src.range(300, 5000),
            _ => src.range(5_000, 150_000),
        };
        let units: &[(&str, &str)] = &[("[", "]"), ("{\"a\":", "}"), ("[1,", ",\"]\"]"), ("{\"b\":[", "]}"), ("{\"}\":{\"x\":1},\"c\":", ",\"d\":[]}")];
        let (o, c) = src.pick(units);
        let core = src.pick::<&str>(&["1", "\"[{\"", "null", "[]", "{}", "-1.5e3"]);
        let (first, last) = (at[0].1, at[at.len() - 1].0);
        let deep = format!("\"zz unknown\":{}{}{}", o.repeat(n), core, c.repeat(n));
        let s2 = if s[first..last].trim().is_empty() {
            format!("{}{}{}", &s[..first], deep, &s[first..])
        } else if src.below(2) == 0 {
            format!("{}{},{}", &s[..first], deep, &s[first..])
        } else {
            format!("{},{}{}", &s[..last], deep, &s[last..])
        };
        ctx.eval();
        ctx.nontrivial(format!("{} {} {} {}", e.name, n, o, core).as_bytes());
        ctx.sample(|| format!("{}: {} with an unknown member of {} levels {}..{}", e.name, clip(&s), n, o, c));
        let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || capped((8 << 20) + s2.len() * 256, || de(&e, true, &s2)).0);
        match h.unwrap().join() {
            Ok(Ok(x)) => {
                ensure!(x == v, "{}: {} with an unknown member {} levels deep decoded as {}", e.name, v.show(), n, x.show());
                Ok(())
            }
            Ok(Err(m)) => fail(format!("{}: {} with an unknown member {} levels deep ({}..{}) rejected: {}", e.name, clip(&s), n, o, c, m.msg)),
            Err(_) => fail(format!("{}: panic on an unknown member {} levels deep", e.name, n)),
        }
    }))
}
