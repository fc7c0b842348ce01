//! Members to fields.
use super::text::{clip, de, entries, fmt_of, key, ser};
use super::Reg;
use crate::engine::*;
use crate::ensure;
use crate::gen;
use crate::reg::Entry;
use crate::text::{self, *};
use crate::val::*;

fn has_named(ty: TyRef) -> bool {
    let mut y = false;
    visit_types(ty, &mut |t| match t {
        Ty::Struct(d) => y |= d.kind == Kind::Named,
        Ty::Enum(d) => y |= d.variants.iter().any(|v| v.kind == Kind::Named),
        _ => {}
    });
    y
}
pub fn json(reg: Reg) -> Vec<Sub> {
    both(reg, true)
}
pub fn ron(reg: Reg) -> Vec<Sub> {
    both(reg, false)
}
fn both(reg: Reg, json: bool) -> Vec<Sub> {
    let fmt = fmt_of(json);
    let mut es: Vec<Entry> = entries(reg, json).into_iter().filter(|e| has_named((e.ty)())).collect();
    if es.is_empty() {
        es = entries(reg, json);
    }
    let (e1, e2, e3) = (es.clone(), es.clone(), es);
    vec![
        Sub::new("members", 70_000, 2_500_000, move |src, ctx| {
            let e = src.pick(&e1);
            let ty = (e.ty)();
            let mut v = gen::value(src, ty, gen::TEXT);
            let n = build(src, &mut v, ty, fmt, LOOSE);
            let mut t = vec![];
            flatten(src, &n, true, &mut t);
            let sp = *src.pick(&[Space::Tight, Space::White, Space::Comments]);
            let (s, _) = join(src, &t, sp);
            ctx.eval();
            ctx.nontrivial(&key(e, &s));
            ctx.sample(|| format!("{}: {} -> {}", e.name, clip(&s), v.show()));
            match de(e, json, &s) {
                Ok(x) => ensure!(x == v, "{}: {} says {}, decoded as {}", e.name, clip(&s), v.show(), x.show()),
                Err(x) => return fail(format!("{}: {} says {}, rejected: {}", e.name, clip(&s), v.show(), x.msg)),
            }
            Ok(())
        }),
        Sub::new("required", 20_000, 700_000, move |src, ctx| {
            let e = src.pick(&e2);
            let ty = (e.ty)();
            let mut v = gen::small(src, ty, gen::TEXT);
            let mut n = build(src, &mut v, ty, fmt, LOOSE);
            let Some(how) = break_tree(src, &mut n, fmt) else { return Ok(()) };
            if how != "missing member" && how != "unknown member" {
                return Ok(());
            }
            let mut t = vec![];
            flatten(src, &n, true, &mut t);
            let (s, _) = join(src, &t, Space::White);
            ctx.eval();
            ctx.nontrivial(&key(e, &s));
            ctx.label(how);
            match de(e, json, &s) {
                Ok(x) => fail(format!("{}: {} ({}) decodes as {}", e.name, clip(&s), how, x.show())),
                Err(_) => Ok(()),
            }
        }),
        Sub::new("written", 20_000, 700_000, move |src, ctx| {
            let e = src.pick(&e3);
            let ty = (e.ty)();
            if json && !std_json_keys(ty) {
                return Ok(());
            }
            let v = gen::value(src, ty, gen::TEXT);
            let s = ser(e, json, &v);
            ctx.eval();
            ctx.nontrivial(&key(e, &s));
            let want = normalize(&v, ty, fmt);
            match text::parse(&s, fmt).and_then(|j| interp(&j, ty, fmt)) {
                Ok(x) => ensure!(x == want, "{}: {} written as {}, whose members say {}", e.name, want.show(), clip(&s), x.show()),
                Err(m) => return fail(format!("{}: {} written as {}: {}", e.name, v.show(), clip(&s), m)),
            }
            Ok(())
        }),
    ]
}
