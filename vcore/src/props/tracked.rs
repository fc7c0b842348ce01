//! Every element decoded is dropped exactly once.
use super::text::{broken, clip, cut, de, fmt_of, key};
use super::Reg;
use crate::engine::*;
use crate::ensure;
use crate::entry;
use crate::gen;
use crate::refbin;
use crate::reg::Entry;
use crate::text::{self, *};
use crate::track::{self, Tracked};
use crate::val::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList};

fn mine() -> Vec<Entry> {
    type T = Tracked;
    vec![
        entry!([T; 1]; bin json ron),
        entry!([T; 2]; bin json ron),
        entry!([T; 3]; bin json ron),
        entry!([T; 4]; bin json ron),
        entry!([T; 5]; bin json ron),
        entry!([T; 7]; bin json ron),
        entry!([T; 8]; bin json ron),
        entry!([T; 16]; bin json ron),
        entry!([T; 33]; bin json ron),
        entry!([[T; 2]; 3]; bin json ron),
        entry!([[[T; 2]; 2]; 2]; bin json ron),
        entry!([[T; 0]; 2]; bin json ron),
        entry!([T; 0]; bin json ron),
        entry!([(T, T); 3]; bin json ron),
        entry!([Box<T>; 3]; bin json ron),
        entry!([Vec<T>; 3]; bin json ron),
        entry!([Option<T>; 3]; bin json ron),
        entry!([Option<Box<[T; 2]>>; 2]; bin json ron),
        entry!(Vec<[T; 3]>; bin json ron),
        entry!(Vec<T>; bin json ron),
        entry!(Vec<Vec<T>>; bin json ron),
        entry!(LinkedList<T>; bin json ron),
        entry!(LinkedList<[T; 2]>; bin json ron),
        entry!(BTreeSet<T>; bin json ron),
        entry!(HashSet<T>; bin json ron),
        entry!(BTreeMap<T, T>; bin json ron),
        entry!(HashMap<T, T>; bin json ron),
        entry!(BTreeMap<String, [T; 2]>; bin json ron),
        entry!(HashMap<String, Vec<T>>; bin json ron),
        entry!((T, T); bin json ron),
        entry!((T, [T; 2], T); bin json ron),
        entry!((T, T, Vec<T>, T); bin json ron),
        entry!(Option<T>; bin json ron),
        entry!(Option<[T; 4]>; bin json ron),
        entry!(Box<T>; bin json ron),
        entry!(Box<[T; 3]>; bin json ron),
        entry!([BTreeMap<u8, T>; 2]; bin json ron),
        entry!([LinkedList<T>; 2]; bin json ron),
        entry!(Vec<Option<(T, [T; 2])>>; bin json ron),
    ]
}
fn verdict(what: &dyn Fn() -> String, ctx: &mut Ctx, ok: bool) -> R {
    let (made, alive, bad) = track::report();
    if let Some(b) = bad {
        return fail(format!("{}: {}", what(), b));
    }
    ensure!(alive == 0, "{}: {} of {} values made were never dropped", what(), alive, made);
    if !ok && made > 0 {
        ctx.label("failed after some elements were decoded")
    } else if ok {
        ctx.label("decoded")
    } else {
        ctx.label("failed before any element")
    }
    Ok(())
}
pub fn subs(reg: Reg) -> Vec<Sub> {
    let es = mine();
    // user-defined types holding tracked values, where the registry has some
    let more: Vec<Entry> = reg.iter().filter(|e| e.name.contains("Tracked")).copied().collect();
    let es: Vec<Entry> = es.into_iter().chain(more).collect();
    let (e1, e2, e3, e4, e5) = (es.clone(), es.clone(), es.clone(), es.clone(), es.clone());
    // (tracking itself takes memory)
    let all: Vec<Entry> = reg.iter().filter(|e| !e.name.contains("Tracked")).copied().collect();
    vec![
        Sub::new("binary", 60_000, 2_000_000, move |src, ctx| {
            let e = src.pick(&e1);
            let Some(f) = e.bin else { return Ok(()) };
            let ty = (e.ty)();
            let v = gen::value(src, ty, gen::BIN);
            let mut b = vec![];
            refbin::encode(&v, ty, &mut b);
            match src.below(4) {
                0 => {}
                1 => b.truncate(src.below(b.len() + 1)),
                2 => {
                    b.truncate(src.below(b.len() + 1));
                    b.extend((0..src.below(4)).map(|_| src.below(256) as u8))
                }
                _ => {
                    if !b.is_empty() {
                        let i = src.below(b.len());
                        b[i] = *src.pick(&[0, 1, 2, 3, 5, 9, 200, 255])
                    }
                }
            }
            ctx.eval();
            ctx.nontrivial(&key(e, &format!("{:?}", b)));
            track::reset();
            let (r, _) = capped((1 << 20) + b.len() * (4096 + 16 * e.size), || (f.de)(&b).is_ok());
            verdict(&|| format!("{} from {:02x?}", e.name, b), ctx, r)
        }),
        // every element position: too early an end, a bad element, a missing close
        Sub::new("positions", 80_000, 2_500_000, move |src, ctx| {
            let e = src.pick(&e2);
            let json = src.below(2) == 0;
            if (json && e.json.is_none()) || (!json && e.ron.is_none()) {
                return Ok(());
            }
            let ty = (e.ty)();
            let mut v = gen::small(src, ty, gen::TEXT);
            let n = build(src, &mut v, ty, fmt_of(json), SPELL);
            let mut t = vec![];
            flatten(src, &n, true, &mut t);
            let i = src.below(t.len());
            match src.below(6) {
                0 => t.truncate(i),
                1 => t[i].s = src.pick(&["\"x\"", "256", "-1", "1.5", "null", "true", "[", "]", "}", "(", ")", "None", "@", "{"]).to_string(),
                2 => {
                    t.remove(i);
                }
                3 => {
                    let x = t[i].clone();
                    t.insert(i, x)
                }
                4 => {
                    let j = src.below(t.len());
                    t.swap(i, j)
                }
                _ => {}
            }
            let (s, _) = join(src, &t, Space::White);
            ctx.eval();
            ctx.nontrivial(&key(e, &s));
            ctx.sample(|| format!("{}: {}", e.name, clip(&s)));
            track::reset();
            let (r, _) = capped((1 << 20) + s.len() * (4096 + 16 * e.size), || de(e, json, &s).is_ok());
            verdict(&|| format!("{} from {} {}", e.name, if json { "JSON" } else { "RON" }, clip(&s)), ctx, r)
        }),
        Sub::new("broken", 40_000, 1_200_000, move |src, ctx| {
            let json = src.below(2) == 0;
            let es: Vec<Entry> = e3.iter().filter(|e| if json { e.json.is_some() } else { e.ron.is_some() }).copied().collect();
            let Some((e, s, how)) = broken(&es, src, json) else { return Ok(()) };
            ctx.eval();
            ctx.nontrivial(&key(&e, &s));
            track::reset();
            let r = de(&e, json, &s).is_ok();
            verdict(&|| format!("{} from {} ({})", e.name, clip(&s), how), ctx, r)
        }),
        Sub::new("cut", 40_000, 1_200_000, move |src, ctx| {
            let json = src.below(2) == 0;
            let es: Vec<Entry> = e4.iter().filter(|e| if json { e.json.is_some() } else { e.ron.is_some() }).copied().collect();
            let Some((e, s, c)) = cut(&es, src, json, text::LOOSE) else { return Ok(()) };
            let s = &s[..c];
            ctx.eval();
            ctx.nontrivial(&key(&e, s));
            track::reset();
            let r = de(&e, json, s).is_ok();
            verdict(&|| format!("{} from {}", e.name, clip(s)), ctx, r)
        }),
        // one decoder state, several values, the last one broken
        Sub::new("written", 10_000, 300_000, move |src, ctx| {
            // serializing looks at live values only
            let e = src.pick(&e5);
            let v = gen::small(src, (e.ty)(), gen::TEXT);
            ctx.eval();
            ctx.nontrivial(&key(e, &v.show()));
            track::reset();
            if let Some(f) = e.bin {
                let _ = (f.ser)(&v);
            }
            if let Some(f) = e.json {
                let _ = (f.ser)(&v);
            }
            if let Some(f) = e.ron {
                let _ = (f.ser)(&v);
            }
            verdict(&|| format!("writing {}", e.name), ctx, true)
        }),
        // all other types: no memory is left behind
        Sub::new("memory", 60_000, 2_000_000, move |src, ctx| {
            let e = *src.pick(&all);
            let one = [e];
            let which = src.below(3);
            let (ok, left, what) = match which {
                0 => {
                    let Some(f) = e.bin else { return Ok(()) };
                    let ty = (e.ty)();
                    if !super::bin::bounded(ty) {
                        return Ok(());
                    }
                    let v = gen::value(src, ty, gen::BIN);
                    let mut b = vec![];
                    refbin::encode(&v, ty, &mut b);
                    if src.chance(2, 3) {
                        b.truncate(src.below(b.len() + 1))
                    }
                    if src.chance(1, 3) && !b.is_empty() {
                        let i = src.below(b.len());
                        b[i] = src.below(256) as u8
                    }
                    let (r, _) = capped(64 << 20, || (f.leak)(&b));
                    (r.0, r.1, format!("{:02x?}", b))
                }
                w => {
                    let json = w == 1;
                    if (json && e.json.is_none()) || (!json && e.ron.is_none()) || !text_lossless((e.ty)(), json) {
                        return Ok(());
                    }
                    let s = if src.below(2) == 0 {
                        let Some((_, s, _)) = broken(&one, src, json) else { return Ok(()) };
                        s
                    } else {
                        let Some((_, s, c)) = cut(&one, src, json, text::LOOSE) else { return Ok(()) };
                        s[..c].to_string()
                    };
                    let r = if json { (e.json.unwrap().leak)(&s) } else { (e.ron.unwrap().leak)(&s) };
                    (r.0, r.1, clip(&s))
                }
            };
            ctx.eval();
            ctx.nontrivial(&key(&e, &what));
            ensure!(left == 0, "{} from {}: {} bytes still allocated afterwards (ok: {})", e.name, what, left, ok);
            Ok(())
        }),
    ]
}
