pub mod bin;
pub mod chars;
pub mod compose;
pub mod deep;
pub mod durs;
pub mod floats;
pub mod ints;
pub mod maps;
pub mod place;
pub mod text;
pub mod toml;
pub mod tracked;

use crate::engine::Sub;
use crate::reg::Entry;
pub type Reg = &'static [Entry];

/// The sub-checks of a property.
pub fn subs(prop: &str, reg: Reg) -> Vec<Sub> {
    match prop {
        "C01" => with(bin::roundtrip(reg), [deep::roundtrip(deep::F::Bin)]),
        "C02" => bin::layout(reg),
        "C03" => with(with(bin::hostile(reg), [deep::cut(deep::F::Bin)]), large(bin::hostile(reg), &["cut", "field", "bytes"], 8, 2_000)),
        "C04" => with(text::roundtrip(reg, true), [deep::roundtrip(deep::F::Json)]),
        "C05" => text::denotes(reg, true),
        "C06" => text::spellings(reg, true),
        "C07" => with(with(text::malformed(reg, true), [deep::cut(deep::F::Json)]), large(text::malformed(reg, true), &["broken", "cut"], 60, 8_000)),
        "C08" => ints::subs(reg),
        "C09" => with(with(maps::json(reg), deep::unknown(reg)), large(maps::json(reg), &["members", "required", "written"], 40, 5_000)),
        "C10" => with(text::roundtrip(reg, false), [deep::roundtrip(deep::F::Ron)]),
        "C11" => text::denotes(reg, false),
        "C12" => text::spellings(reg, false),
        "C13" => with(with(text::malformed(reg, false), [deep::cut(deep::F::Ron)]), large(text::malformed(reg, false), &["broken", "cut"], 60, 8_000)),
        "C14" => with(maps::ron(reg), large(maps::ron(reg), &["members", "required", "written"], 25, 4_000)),
        "C15" => toml::documents(),
        "C16" => toml::total(),
        "C17" => derived(reg),
        "C18" => with(tracked::subs(reg), large(tracked::subs(reg), &["binary", "positions", "broken", "cut", "memory"], 20, 3_000)),
        "C19" => with(place::subs(reg), large(place::subs(reg), &["cut", "illegal", "token", "shift", "binary"], 30, 4_000)),
        "C21" => durs::subs(),
        "C22" => with(compose::subs(reg), large(compose::subs(reg), &["binary-append", "text-append", "stands-for", "stream"], 40, 5_000)),
        "C23" => floats::subs(),
        "C24" => chars::subs(),
        _ => vec![],
    }
}
fn with(mut v: Vec<Sub>, more: impl IntoIterator<Item = Sub>) -> Vec<Sub> {
    v.extend(more);
    v
}
/// The named subs again, with mostly large values, this many cases each.
fn large(subs: Vec<Sub>, names: &[&str], quick: u64, thorough: u64) -> Vec<Sub> {
    subs.into_iter()
        .filter(|s| names.contains(&s.name))
        .map(|s| {
            let name = Box::leak(format!("large-{}", s.name).into_boxed_str());
            let f = s.f;
            Sub::new(name, quick, thorough, move |src, ctx| crate::gen::with_large(|| f(src, ctx)))
        })
        .collect()
}
/// Everything a generated program's types are put through.
fn derived(reg: Reg) -> Vec<Sub> {
    let mut v = vec![];
    let mut add = |name: &'static str, mut s: Vec<Sub>| {
        let mut x = s.remove(0);
        x.name = name;
        v.push(x)
    };
    if reg.iter().any(|e| e.bin.is_some()) {
        add("bin-roundtrip", bin::roundtrip(reg));
        add("bin-layout", bin::layout(reg));
    }
    if reg.iter().any(|e| e.json.is_some()) {
        add("json-roundtrip", text::roundtrip(reg, true));
        add("json-denotes", text::denotes(reg, true));
        add("json-spellings", text::spellings(reg, true));
        add("json-malformed", text::malformed(reg, true));
        add("json-members", maps::json(reg));
    }
    if reg.iter().any(|e| e.ron.is_some()) {
        add("ron-roundtrip", text::roundtrip(reg, false));
        add("ron-denotes", text::denotes(reg, false));
        add("ron-spellings", text::spellings(reg, false));
        add("ron-malformed", text::malformed(reg, false));
        add("ron-members", maps::ron(reg));
    }
    v
}
