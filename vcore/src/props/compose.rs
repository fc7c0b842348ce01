//! Serialization appends, decoding composes.
use super::text::{clip, entries, fmt_of, fname, key, ser};
use super::Reg;
use crate::engine::*;
use crate::ensure;
use crate::gen;
use crate::reg::Entry;
use crate::text::{self, *};
use crate::val::*;
use nanoserde::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList};
use std::fmt::Debug;

const INDENTS: &[usize] = &[0, 1, 2, 7, 63, 64, 1000, 1 << 20, 1 << 40];


/// The same document, up to separators and spacing.
fn same(x: &str, y: &str, f: Fmt) -> bool {
    x == y || matches!((text::parse(x, f), text::parse(y, f)), (Ok(p), Ok(q)) if p == q)
}
/// One type written as another.
fn stands<A: SerBin + SerJson + SerRon + ?Sized, B: SerBin + SerJson + SerRon + ?Sized>(a: &A, b: &B, what: &str) -> R {
    let (x, y) = (a.serialize_bin(), b.serialize_bin());
    ensure!(x == y, "{}: {:02x?} and {:02x?} in binary", what, x, y);
    jr(a, b, what)
}
fn jr<A: SerJson + SerRon + ?Sized, B: SerJson + SerRon + ?Sized>(a: &A, b: &B, what: &str) -> R {
    let (x, y) = (a.serialize_json(), b.serialize_json());
    ensure!(same(&x, &y, Fmt::Json), "{}: {} and {} in JSON", what, x, y);
    let (x, y) = (a.serialize_ron(), b.serialize_ron());
    ensure!(same(&x, &y, Fmt::Ron), "{}: {} and {} in RON", what, x, y);
    Ok(())
}
fn round<T: Subject, U: Subject + SerBin + DeBin + SerJson + DeJson + SerRon + DeRon>(v: &Val) -> U
where
    T: Subject,
{
    U::from_val(v)
}
fn family<T>(src: &mut Src, ctx: &mut Ctx) -> R
where
    T: Subject + SerBin + DeBin + SerJson + DeJson + SerRon + DeRon + PartialEq + Debug + Clone,
{
    let vec_ty: TyRef = <Vec<T> as Subject>::TY;
    let v = gen::value(src, vec_ty, gen::TEXT);
    let xs: Vec<T> = round::<Vec<T>, Vec<T>>(&v);
    ctx.eval();
    if !xs.is_empty() {
        ctx.nontrivial(v.show().as_bytes())
    }
    stands(&xs, &LinkedList::from_iter(xs.iter().cloned()), "Vec and LinkedList")?;
    stands(&xs, &Box::new(xs.clone()), "Vec and Box<Vec>")?;
    // a slice in binary has no length; in JSON it is a list, in RON a tuple
    let s: &[T] = &xs;
    ensure!(same(&s.serialize_json(), &xs.serialize_json(), Fmt::Json), "a slice in JSON is {}, a Vec {}", s.serialize_json(), xs.serialize_json());
    let mut cat = vec![];
    xs.iter().for_each(|x| x.ser_bin(&mut cat));
    ensure!(s.serialize_bin() == cat, "a slice in binary is {:02x?}, its elements {:02x?}", s.serialize_bin(), cat);
    let mut pre = (xs.len() as u64).to_le_bytes().to_vec();
    pre.extend(&cat);
    ensure!(xs.serialize_bin() == pre, "a Vec in binary is {:02x?}, its parts {:02x?}", xs.serialize_bin(), pre);
    for x in xs.iter().take(400) {
        stands(x, &Box::new(x.clone()), "T and Box<T>")?;
        stands(x, std::slice::from_ref(x)[0..1].first().unwrap(), "T and T")?;
        let some = Some(x.clone());
        jr(x, &some, "T and Some(T)")?;
        let mut b = vec![1];
        x.ser_bin(&mut b);
        ensure!(some.serialize_bin() == b, "Some in binary is {:02x?}, its parts {:02x?}", some.serialize_bin(), b);
    }
    if let [a, b, c, ..] = &xs[..] {
        let arr = [a.clone(), b.clone(), c.clone()];
        stands(&arr, &arr[..], "an array and a slice")?;
        stands(&arr, &(a.clone(), b.clone(), c.clone()), "[T; 3] and (T, T, T)")?;
        let m: Vec<T> = DeJson::deserialize_json(&arr.serialize_json()).map_err(|e| Fail { msg: format!("an array's JSON is no Vec: {:?}", e) })?;
        ensure!(m == arr, "[T; 3] {:?} in JSON read as Vec is {:?}", arr, m);
    }
    Ok(())
}

pub fn subs(reg: Reg) -> Vec<Sub> {
    let bins: Vec<Entry> = reg.iter().filter(|e| e.bin.is_some()).copied().collect();
    let (j1, r1) = (entries(reg, true), entries(reg, false));
    let (j2, r2) = (j1.clone(), r1.clone());
    vec![
        Sub::new("binary-append", 60_000, 2_000_000, move |src, ctx| {
            let e = src.pick(&bins);
            let f = e.bin.unwrap();
            let ty = (e.ty)();
            let v = gen::value(src, ty, gen::BIN);
            let pre: Vec<u8> = (0..src.below(30)).map(|_| src.below(256) as u8).collect();
            let mut out = Vec::with_capacity(pre.len() + src.below(40));
            out.extend(&pre);
            (f.ser_into)(&v, &mut out);
            let one = (f.ser)(&v);
            ctx.eval();
            if !one.is_empty() {
                ctx.nontrivial(&out)
            }
            let what = || format!("{} {}", e.name, v.show());
            ensure!(out.len() >= pre.len() && out[..pre.len()] == pre, "{}: what was in the buffer changed", what());
            let rest = &out[pre.len()..];
            ensure!(rest.len() == 2 * one.len(), "{}: {} bytes at once, {} appended in two goes", what(), one.len(), rest.len());
            let (a, b) = rest.split_at(one.len());
            if has_hash(ty) {
                let want = normalize(&v, ty, Fmt::Bin);
                for a in [a, b] {
                    let x = (f.de)(a);
                    ensure!(x.as_ref().is_ok_and(|x| *x == want), "{}: appended as {:02x?}, which is {:?}", what(), a, x);
                }
            } else {
                ensure!(a == b, "{}: written twice, {:02x?} and {:02x?}", what(), a, b);
                ensure!(a == one, "{}: appended as {:02x?}, at once {:02x?}", what(), a, one);
            }
            Ok(())
        }),
        Sub::new("text-append", 80_000, 2_500_000, move |src, ctx| {
            let json = src.below(2) == 0;
            let e = src.pick(if json { &j1 } else { &r1 });
            let ty = (e.ty)();
            let v = gen::value(src, ty, gen::TEXT);
            let pre = src.pick(&["", " ", "[1,", "{", "{\"a\":1,", "\"", "\n", "é", "(", "x:"]).to_string();
            let d = *src.pick(INDENTS);
            let out = if json {
                let mut s = SerJsonState::new(pre.clone());
                (e.json.unwrap().ser_into)(&v, d, &mut s);
                s.out
            } else {
                // no constructor from outside the crate: borrow the text format's own
                let mut s = ron_state(&pre);
                (e.ron.unwrap().ser_into)(&v, d, &mut s);
                s.out
            };
            let one = ser(e, json, &v);
            ctx.eval();
            ctx.nontrivial(&key(e, &out));
            ctx.sample(|| format!("{} {}: {}", fname(json), e.name, clip(&out)));
            let what = || format!("{} {} {}", fname(json), e.name, v.show());
            let Some(rest) = out.strip_prefix(pre.as_str()) else {
                return fail(format!("{}: what was already in the output changed: {}", what(), clip(&out)));
            };
            let n = (rest.len() - 1) / 2;
            ensure!(rest.as_bytes().get(n) == Some(&1), "{}: written twice as {}", what(), clip(rest));
            let (a, b) = (&rest[..n], &rest[n + 1..]);
            if has_hash(ty) {
                let want = normalize(&v, ty, fmt_of(json));
                for a in [a, b] {
                    let x = super::text::de(e, json, a);
                    ensure!(x.as_ref().is_ok_and(|x| *x == want), "{}: appended as {}, which is {:?}", what(), clip(a), x);
                }
            } else {
                ensure!(a == b, "{}: indent {} gives {}, indent 0 {}", what(), d, clip(a), clip(b));
                ensure!(a == one, "{}: appended as {}, at once {}", what(), clip(a), clip(&one));
            }
            Ok(())
        }),
        Sub::new("stands-for", 40_000, 1_200_000, |src, ctx| match src.below(12) {
            0 => family::<u8>(src, ctx),
            1 => family::<i64>(src, ctx),
            2 => family::<f64>(src, ctx),
            3 => family::<String>(src, ctx),
            4 => family::<bool>(src, ctx),
            5 => family::<(u16, String)>(src, ctx),
            6 => family::<Vec<u8>>(src, ctx),
            7 => family::<BTreeMap<String, u8>>(src, ctx),
            8 => family::<[i16; 2]>(src, ctx),
            9 => family::<std::time::Duration>(src, ctx),
            10 => family::<f32>(src, ctx),
            _ => {
                // sets and maps hold the same whatever their kind
                let t: TyRef = <BTreeMap<String, i32> as Subject>::TY;
                let v = gen::value(src, t, gen::TEXT);
                let b = BTreeMap::<String, i32>::from_val(&v);
                let h: HashMap<String, i32> = b.clone().into_iter().collect();
                let ks: BTreeSet<String> = b.keys().cloned().collect();
                let hs: HashSet<String> = ks.iter().cloned().collect();
                ctx.eval();
                ctx.nontrivial(v.show().as_bytes());
                let bad = |m: &str| fail(format!("{}: {:?}", m, b));
                if HashMap::<String, i32>::deserialize_bin(&b.serialize_bin()).ok() != Some(h.clone()) || BTreeMap::<String, i32>::deserialize_bin(&h.serialize_bin()).ok() != Some(b.clone()) {
                    return bad("BTreeMap and HashMap differ in binary");
                }
                if HashMap::<String, i32>::deserialize_json(&b.serialize_json()).ok() != Some(h.clone()) || BTreeMap::<String, i32>::deserialize_json(&h.serialize_json()).ok() != Some(b.clone()) {
                    return bad("BTreeMap and HashMap differ in JSON");
                }
                if HashMap::<String, i32>::deserialize_ron(&b.serialize_ron()).ok() != Some(h.clone()) || BTreeMap::<String, i32>::deserialize_ron(&h.serialize_ron()).ok() != Some(b.clone()) {
                    return bad("BTreeMap and HashMap differ in RON");
                }
                let list: Vec<String> = ks.iter().cloned().collect();
                stands(&ks, &list, "BTreeSet and the list of its elements")?;
                if HashSet::<String>::deserialize_bin(&ks.serialize_bin()).ok() != Some(hs.clone()) || BTreeSet::<String>::deserialize_json(&hs.serialize_json()).ok() != Some(ks.clone()) || HashSet::<String>::deserialize_ron(&ks.serialize_ron()).ok() != Some(hs) {
                    return bad("BTreeSet and HashSet differ");
                }
                for k in b.keys() {
                    ensure!(k.as_str().serialize_json() == k.serialize_json(), "str and String differ in JSON: {:?}", k);
                    let mut s = SerJsonState::new(String::from("x"));
                    k.as_str().ser_json(3, &mut s);
                    ensure!(s.out == format!("x{}", k.serialize_json()), "str appended in JSON: {}", s.out);
                }
                Ok(())
            }
        }),
        Sub::new("stream", 60_000, 2_000_000, move |src, ctx| {
            let json = src.below(2) == 0;
            let es = if json { &j2 } else { &r2 };
            let n = src.range(2, 6);
            let comma = src.below(2) == 1;
            let mut doc = String::new();
            let mut all = vec![];
            for i in 0..n {
                let e = *src.pick(es);
                let ty = (e.ty)();
                let mut v = gen::small(src, ty, gen::TEXT);
                let node = build(src, &mut v, ty, fmt_of(json), LOOSE);
                let mut t = vec![];
                flatten(src, &node, true, &mut t);
                let sp = *src.pick(&[Space::White, Space::Tight, Space::Comments]);
                let (s, _) = join(src, &t, sp);
                if i > 0 {
                    doc.push_str(if comma { "," } else { " " })
                }
                doc.push_str(&s);
                all.push((e, v, s));
            }
            ctx.eval();
            ctx.nontrivial(&key(&all[0].0, &doc));
            ctx.sample(|| format!("{}: {}", fname(json), clip(&doc)));
            let mut it = doc.chars();
            let bad = |i: usize, m: String| {
                fail(format!("{} {}: value {} ({}): {}", fname(json), clip(&doc), i, all[i].0.name, m))
            };
            if json {
                let mut s = DeJsonState::default();
                s.next(&mut it);
                if let Err(e) = s.next_tok(&mut it) {
                    return bad(0, format!("{:?}", e));
                }
                for (i, (e, v, _)) in all.iter().enumerate() {
                    if i > 0 && comma {
                        if s.tok != DeJsonTok::Comma {
                            return bad(i - 1, format!("followed by {:?} rather than the comma", s.tok));
                        }
                        if let Err(e) = s.next_tok(&mut it) {
                            return bad(i, format!("{:?}", e));
                        }
                    }
                    match (e.json.unwrap().de_st)(&mut s, &mut it) {
                        Ok(x) if x == *v => {}
                        Ok(x) => return bad(i, format!("is {}, decoded as {}", v.show(), x.show())),
                        Err(e) => return bad(i, format!("is {}, rejected: {}", v.show(), e.msg)),
                    }
                }
                if s.tok != DeJsonTok::Eof {
                    return bad(n - 1, format!("left {:?} at the end", s.tok));
                }
            } else {
                let mut s = DeRonState::default();
                s.next(&mut it);
                if let Err(e) = s.next_tok(&mut it) {
                    return bad(0, format!("{:?}", e));
                }
                for (i, (e, v, _)) in all.iter().enumerate() {
                    if i > 0 && comma {
                        if s.tok != DeRonTok::Comma {
                            return bad(i - 1, format!("followed by {:?} rather than the comma", s.tok));
                        }
                        if let Err(e) = s.next_tok(&mut it) {
                            return bad(i, format!("{:?}", e));
                        }
                    }
                    match (e.ron.unwrap().de_st)(&mut s, &mut it) {
                        Ok(x) if x == *v => {}
                        Ok(x) => return bad(i, format!("is {}, decoded as {}", v.show(), x.show())),
                        Err(e) => return bad(i, format!("is {}, rejected: {}", v.show(), e.msg)),
                    }
                }
                if s.tok != DeRonTok::Eof {
                    return bad(n - 1, format!("left {:?} at the end", s.tok));
                }
            }

            Ok(())
        }),
    ]
}
/// A RON writer that already holds `pre`.
fn ron_state(pre: &str) -> SerRonState {
    SerRonState { out: pre.to_string() }
}
