//! TOML.
use super::text::clip;
use crate::engine::*;
use crate::ensure;
use crate::gen;
use crate::tomlgen::{self, of_map, Doc};
use nanoserde::TomlParser;

fn parse(s: &str) -> Result<Doc, String> {
    TomlParser::parse(s).map(|m| of_map(&m)).map_err(|e| format!("{:?}", e))
}
fn cap(s: &str) -> usize {
    (1 << 20) + s.len() * 4096
}
pub fn documents() -> Vec<Sub> {
    vec![
        Sub::new("documents", 80_000, 3_000_000, |src, ctx| document(tomlgen::document(src), ctx)),
        Sub::new("large", 60, 8_000, |src, ctx| document(tomlgen::large(src), ctx)),
    ]
}
fn document(d: tomlgen::Made, ctx: &mut Ctx) -> R {
        ctx.eval();
        if d.want.len() > 1 {
            ctx.nontrivial(d.text.as_bytes())
        }
        if d.want.values().any(|v| matches!(v, tomlgen::TV::Tables(_))) {
            ctx.label("with arrays of tables")
        }
        if d.text.contains("\"\"\"") {
            ctx.label("with triple-quoted strings")
        }
        ctx.sample(|| clip(&d.text));
        match parse(&d.text) {
            Ok(x) => {
                for (k, v) in &d.want {
                    ensure!(x.contains_key(k), "TOML {}: {:?} is missing; got {:?}", clip(&d.text), k, x.keys().collect::<Vec<_>>());
                    ensure!(&x[k] == v, "TOML {}: {:?} is {:?}, decoded as {:?}", clip(&d.text), k, v, x[k]);
                }
                for k in x.keys() {
                    ensure!(d.want.contains_key(k), "TOML {}: nothing says {:?} = {:?}", clip(&d.text), k, x[k]);
                }
                Ok(())
            }
            Err(m) => fail(format!("TOML {} is rejected: {}", clip(&d.text), m)),
        }
}
fn soup(src: &mut Src) -> String {
    let toks: &[&str] = &[
        "[", "]", "[[", "]]", "=", ",", "\"", "\"\"\"", "\"a\"", "a", "a.b", "a =", "a = 1\n", "[t]\n", "[[t]]\n", "t = 1\n", "1", "-", "+", "-1", "1.", ".", "1.5", "true", "inf", "-inf", "nan", "+n", "-i", "na",
        "1979-05-27", "1979-", "1_0", "_", "#", "# c\n", "\n", "\r\n", " ", "\t", "\\", "\\u", "\\U0010ffff", "\\ud800", "\\", "\"\\", "'", "{", "}", "é", "\0", "99999999999999999999", "-99999999999999999999", "0x1",
        "1e5", "[a", "[[a", "x.y.z.w", "\"\" = 1\n", "[[[[", "]]]]", "a=[", "1,2", "T", ":", "½", "\u{d7ff}", "\u{feff}", "\u{7f}",
    ];
    let mut s = String::new();
    for _ in 0..src.below(16) {
        if src.chance(1, 10) {
            s.push(gen::ch(src))
        } else {
            s.push_str(src.pick::<&str>(toks))
        }
        if src.chance(1, 6) {
            s.push(' ')
        }
    }
    s
}
fn long(src: &mut Src) -> String {
    let unit = *src.pick(&[
        " ", "\n", "\r\n", "#\n", "# x\n", "[", "]", "[[", "a.", ".", "a", "é", "1", "_", "1_", "\"", "\\", "\\\\", "\\u0041", "\"\"\"", "'", "=", ",", "1,", "[],", "\"x\",", "[a]\n", "[[a]]\n", "[[a]]\nk=1\n", "-", "+", "1979-", "#", "x=1\n",
        "\t", "a.b.c.", "[1],", "nan,", "0",
    ]);
    let head = *src.pick(&["", "k = [", "k = \"", "k = \"\"\"", "[", "[[", "k = ", "k = 1.", "k = -", "# ", "\"", "a.b", "k = [[", "k = 1979-", "k"]);
    let tail = *src.pick(&["", "]", "\"", "\"\"\"", "]]", " = 1", "\n", "]\n\n[t]\nx = 1\n"]);
    // (long enough for anything that takes the square of the time to run out of it)
    let n = (1 + if src.chance(1, 6) { 1_500_000 + src.below(2_500_000) } else { src.below(300_000) }) / unit.len() + 1;
    format!("{}{}{}", head, unit.repeat(n), tail)
}
/// A string with an escape that stands for no character.
fn bad_escape(src: &mut Src) -> String {
    let wide = src.below(2) == 1;
    let n = if wide { 8 } else { 4 };
    let mut d: Vec<char> = match src.below(3) {
        0 => format!("{:0n$x}", src.range(0xd800, 0xdfff), n = n),
        1 if wide => format!("{:08x}", (0x11_0000u64 + (src.bits() & 0xffff_ffff)).min(0xffff_ffff)),
        _ => {
            let mut d: Vec<char> = format!("{:0n$x}", src.below(0x1_0000), n = n).chars().collect();
            let i = src.below(n);
            d[i] = *src.pick(&['g', 'G', '/', ':', '@', '`', ' ', '_', '+', '-', 'x', '\\', '"', 'é', '٣', '\n']);
            d.into_iter().collect()
        }
    }
    .chars()
    .collect();
    for c in d.iter_mut() {
        if src.below(2) == 0 {
            *c = c.to_ascii_uppercase()
        }
    }
    let d: String = d.into_iter().collect();
    let q = *src.pick(&["\"", "\"\"\""]);
    format!("key = {}{}\\{}{}{}{}", q, src.pick::<&str>(&["", "x", "é "]), if wide { 'U' } else { 'u' }, d, src.pick::<&str>(&["", "0", "y"]), q)
}
/// A bare key with a character that bare keys do not have.
fn bad_key(src: &mut Src) -> String {
    let c = *src.pick(&[
        '@', '^', '`', '{', '}', '/', ':', ';', '!', '~', '|', '\'', '\x01', '\x0b', '\x0c', '\x1f', '\x7f', '\u{85}', '\u{a0}', '\u{b1}', '\u{b4}', '\u{b8}', '\u{ba}', '\u{bb}', '\u{bf}', '\u{d7}', '\u{f7}',
        '\u{37e}', '\u{2000}', '\u{200b}', '\u{200e}', '\u{2028}', '\u{203e}', '\u{2041}', '\u{206f}', '\u{2190}', '\u{245f}', '\u{2500}', '\u{2bff}', '\u{2ff0}', '\u{3000}', '\u{e000}', '\u{f8ff}', '\u{fdd0}', '\u{fdef}',
        '\u{fffe}', '\u{ffff}', '\u{f0000}', '\u{10ffff}',
    ]);
    let k = match src.below(5) {
        0 => c.to_string(),
        1 => format!("k{}", c),
        2 => format!("{}k", c),
        3 => format!("a.b{}", c),
        _ => format!("é{}1", c),
    };
    match src.below(3) {
        0 => format!("[{}]", k),
        1 => format!("[[{}]]", k),
        _ => format!("{} = 1", k),
    }
}
pub fn total() -> Vec<Sub> {
    vec![
        Sub::new("soup", 120_000, 5_000_000, |src, ctx| {
            let s = soup(src);
            ctx.eval();
            ctx.nontrivial(s.as_bytes());
            ctx.sample(|| clip(&s));
            let (r, _) = capped(cap(&s), || parse(&s));
            ctx.label(if r.is_ok() { "soup accepted" } else { "soup rejected" });
            Ok(())
        }),
        Sub::new("edits", 80_000, 3_000_000, |src, ctx| {
            let d = tomlgen::document(src);
            let mut c: Vec<char> = d.text.chars().collect();
            for _ in 0..src.range(1, 5) {
                let i = src.below(c.len() + 1);
                let odd = *src.pick(&['"', '\\', '[', ']', '=', ',', '#', '\n', '-', '+', '.', '_', '0', 'n', 'i', 'T', ':', '\0', 'é', '\u{7f}', '\'', '{']);
                match src.below(5) {
                    0 if i < c.len() => {
                        c.remove(i);
                    }
                    1 if i < c.len() => {
                        let j = (i + src.range(1, 10)).min(c.len());
                        c.drain(i..j);
                    }
                    2 if i < c.len() => {
                        let j = (i + src.range(1, 20)).min(c.len());
                        let x: Vec<char> = c[i..j].to_vec();
                        let at = src.below(c.len() + 1);
                        c.splice(at..at, x);
                    }
                    3 if i < c.len() => c[i] = odd,
                    _ => c.insert(i, odd),
                }
            }
            let s: String = c.into_iter().collect();
            ctx.eval();
            ctx.nontrivial(s.as_bytes());
            let (_, _) = capped(cap(&s), || parse(&s));
            Ok(())
        }),
        Sub::new("cut", 40_000, 1_500_000, |src, ctx| {
            let d = tomlgen::document(src);
            let mut n = src.below(d.text.len() + 1);
            while !d.text.is_char_boundary(n) {
                n -= 1
            }
            let s = &d.text[..n];
            ctx.eval();
            ctx.nontrivial(s.as_bytes());
            let (_, _) = capped(cap(s), || parse(s));
            Ok(())
        }),
        Sub::new("malformed", 80_000, 3_000_000, |src, ctx| {
            let d = tomlgen::document(src);
            let at = *src.pick(&d.starts);
            let (head, tail) = d.text.split_at(at);
            // what can follow and not repair it
            let next = *src.pick(&["", "\n", "\nzz = 1\n", "\n# c\nzz = 1", "\n\n\nzz.y = \"x\"\n", "# c"]);
            let (bad, how): (String, &str) = match src.below(11) {
                8 => (format!("{}{}", bad_escape(src), next), "invalid escape"),
                9 => (format!("{}{}", bad_key(src), next), "illegal character"),
                10 => (
                    format!(
                        "[{0}zzq9]\n{1} = {2}\n{3}[[{0}zzq9.{1}]]{4}",
                        src.pick::<&str>(&["", "", "zzr9."]),
                        src.pick::<&str>(&["x", "x.y", "1"]),
                        src.pick::<&str>(&["1", "\"s\"", "true", "[]", "[1, 2]", "[[]]", "1979-05-27", "nan", "\"\"\"\"\"\""]),
                        src.pick::<&str>(&["", "\n", "other = 1\n", "[zzs9]\n", "[[zzt9]]\nx = 1\n"]),
                        next
                    ),
                    "array of tables where a value is",
                ),
                0 => (format!("{}{}{}", src.pick::<&str>(&["key", "\"key\"", "a.b", "true", "k1"]), src.pick::<&str>(&["", " value", " \"x\"", " [1]", " ,", " ]", " 1"]), next), "missing ="),
                1 => (format!("{} ={}", src.pick::<&str>(&["key", "\"key\"", "a.b"]), next), "missing value"),
                2 => (format!("key = {}{}", src.pick::<&str>(&["\"abc", "\"", "\"\\\"", "\"a\\", "[\"x", "\"\\u00", "\"\\u00e9"]), next.replace('"', "")), "unterminated string"),
                3 => (format!("key = {}{}", src.pick::<&str>(&["\"\"\"abc", "\"\"\"", "\"\"\"a\"", "\"\"\"a\"\"", "\"\"\"\n\"\" \"", "[\"\"\"x", "\"\"\"\\\"\"\""]), next.replace('"', "")), "unterminated triple-quoted string"),
                4 => (format!("{}{}", src.pick::<&str>(&["[tab", "[tab.x", "[\"tab\"", "[[tab", "[[tab]", "[[tab.x]", "[", "[["]), next), "unterminated header"),
                5 => (format!("{}{}", src.pick::<&str>(&["= 1", ", a = 1", "] = 2", "]", ",", "=", "== 1", ", ", "]]"]), next), "stray separator"),
                6 => (format!("{}{}", src.pick::<&str>(&["@", "$a = 1", "key = @", "key = !x", "key = [1, ;]", "k%y = 1", "key = {a = 1}", "(", "key = 'x'", "k/y = 1", "*", "key = <", "[t$]", "key = \u{7f}", "[[a&b]]", "key ~ 1"]), next), "illegal character"),
                _ => (format!("key = {}{}", src.pick::<&str>(&["[1, 2", "[", "[[1], [2]", "[\"a\",", "[true", "[[[]]"]), next.replace("zz", "#").replace(['"', '='], "")), "unterminated array"),
            };
            // in the last place, or in front of the rest where nothing there can repair it
            let s = if src.below(2) == 0 && matches!(how, "stray separator" | "illegal character" | "invalid escape" | "array of tables where a value is") {
                format!("{}{}\n{}", head, bad, tail)
            } else {
                format!("{}{}", head, bad)
            };
            ctx.eval();
            ctx.nontrivial(s.as_bytes());
            ctx.label(how);
            ctx.sample(|| format!("{} ({})", clip(&s), how));
            let (r, _) = capped(cap(&s), || parse(&s));
            match r {
                Ok(x) => fail(format!("TOML {} ({}) is accepted as {:?}", clip(&s), how, x)),
                Err(_) => Ok(()),
            }
        }),
        Sub::new("long", 80, 1_500, |src, ctx| {
            let s = long(src);
            ctx.eval();
            ctx.nontrivial(format!("{} {}", s.len(), s.chars().take(20).collect::<String>()).as_bytes());
            ctx.sample(|| format!("{} bytes starting {:?}", s.len(), s.chars().take(30).collect::<String>()));
            let h = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
                let (r, _) = capped(cap(&s), || TomlParser::parse(&s));
                drop(r)
            });
            match h.unwrap().join() {
                Ok(()) => Ok(()),
                Err(_) => fail("panic on a long input".to_string()),
            }
        }),
    ]
}
