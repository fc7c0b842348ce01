//! cfgprobe run SEED COUNT OUT: puts every format this build has through COUNT cases; a hash per
//! case goes to OUT/<format>, counts to OUT/stats.
//! cfgprobe show FORMAT INDEX SEED: one case in full.
//! cfgprobe case FORMAT INDEX SEED: the type and the input decoded in a case, in hexadecimal.
//! cfgprobe eval FORMAT TYPE HEX: decodes the given input.
#![allow(unused)]
use std::collections::*;
use std::fmt::Debug;
use std::fmt::Write as _;
use std::time::Duration;

pub struct Rng(u64);
impl Rng {
    fn new(seed: u64, fmt: &str, idx: u64) -> Rng {
        let mut r = Rng(seed ^ idx.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ hash(fmt.as_bytes()));
        r.next();
        r
    }
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    fn pick<'a, T: ?Sized>(&mut self, x: &[&'a T]) -> &'a T {
        x[self.below(x.len())]
    }
}
fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100_0000_01b3)
    }
    h ^ (h >> 29)
}

trait Arb: Sized {
    fn arb(r: &mut Rng, d: usize) -> Self;
}
macro_rules! ints {
    ($($t:ident)*) => {$(impl Arb for $t {
        fn arb(r: &mut Rng, _: usize) -> Self {
            match r.below(6) { 0 => 0, 1 => $t::MAX, 2 => $t::MIN, 3 => r.next() as $t, 4 => (r.next() >> (r.below(64))) as $t, _ => (r.below(20) as i8 - 5) as $t }
        }
    })*};
}
ints! { u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 }
impl Arb for bool {
    fn arb(r: &mut Rng, _: usize) -> Self {
        r.below(2) == 1
    }
}
impl Arb for () {
    fn arb(_: &mut Rng, _: usize) -> Self {}
}
impl Arb for f32 {
    fn arb(r: &mut Rng, _: usize) -> Self {
        let x = match r.below(4) {
            0 => [0.0, -0.0, 1.5, f32::MAX, f32::MIN_POSITIVE, 1e-45, -1e10, 16777216.0][r.below(8)],
            1 => r.below(2000) as f32 / 8.0 - 100.0,
            _ => f32::from_bits(r.next() as u32),
        };
        if x.is_finite() { x } else { 0.1 }
    }
}
impl Arb for f64 {
    fn arb(r: &mut Rng, _: usize) -> Self {
        let x = match r.below(4) {
            0 => [0.0, -0.0, 0.1, f64::MAX, f64::MIN_POSITIVE, 5e-324, -1e300, 9007199254740993.0][r.below(8)],
            1 => r.below(2000) as f64 / 8.0 - 100.0,
            _ => f64::from_bits(r.next()),
        };
        if x.is_finite() { x } else { 0.1 }
    }
}
impl Arb for String {
    fn arb(r: &mut Rng, _: usize) -> Self {
        let n = r.below(6);
        (0..n).map(|_| match r.below(4) {
            0 => *r.pick(&[&'"', &'\\', &'/', &'\n', &'\r', &'\t', &'\0', &'\u{8}', &'\u{c}', &'\u{1}', &'\u{7f}', &'\'', &'{', &' ']),
            1 => *r.pick(&[&'é', &'日', &'😀', &'\u{2028}', &'\u{feff}', &'\u{10ffff}', &'\u{d7ff}', &'\u{e000}', &'\u{80}', &'\u{85}']),
            _ => (b'a' + r.below(26) as u8) as char,
        }).collect()
    }
}
impl Arb for Duration {
    fn arb(r: &mut Rng, d: usize) -> Self {
        Duration::new(u64::arb(r, d), [0, 1, 999_999_999, 500_000_000][r.below(4)])
    }
}
impl<T: Arb> Arb for Option<T> {
    fn arb(r: &mut Rng, d: usize) -> Self {
        (d > 0 && r.below(3) > 0).then(|| T::arb(r, d - 1))
    }
}
impl<T: Arb> Arb for Box<T> {
    fn arb(r: &mut Rng, d: usize) -> Self {
        Box::new(T::arb(r, d))
    }
}
fn len(r: &mut Rng, d: usize) -> usize {
    if d == 0 { 0 } else { r.below(4) }
}
impl<T: Arb> Arb for Vec<T> {
    fn arb(r: &mut Rng, d: usize) -> Self {
        (0..len(r, d)).map(|_| T::arb(r, d - 1)).collect()
    }
}
impl<T: Arb> Arb for LinkedList<T> {
    fn arb(r: &mut Rng, d: usize) -> Self {
        (0..len(r, d)).map(|_| T::arb(r, d - 1)).collect()
    }
}
impl<T: Arb + Ord> Arb for BTreeSet<T> {
    fn arb(r: &mut Rng, d: usize) -> Self {
        (0..len(r, d)).map(|_| T::arb(r, d - 1)).collect()
    }
}
impl<K: Arb + Ord, T: Arb> Arb for BTreeMap<K, T> {
    fn arb(r: &mut Rng, d: usize) -> Self {
        (0..len(r, d)).map(|_| (K::arb(r, d - 1), T::arb(r, d - 1))).collect()
    }
}
impl<T: Arb, const N: usize> Arb for [T; N] {
    fn arb(r: &mut Rng, d: usize) -> Self {
        core::array::from_fn(|_| T::arb(r, d))
    }
}
macro_rules! tups {
    ($(($($t:ident)*))*) => {$(impl<$($t: Arb),*> Arb for ($($t,)*) { fn arb(r: &mut Rng, d: usize) -> Self { ($($t::arb(r, d),)*) } })*};
}
tups! { (A B) (A B C) (A B C D) }

#[cfg(any(feature = "binary", feature = "json", feature = "ron"))]
mod arbs {
    use super::*;
    pub use cfgprobe::types::*;
    macro_rules! arb {
        ($t:ident { $($f:ident)* }) => { impl Arb for $t { fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); $t { $($f: Arb::arb(r, d)),* } } } };
    }
    arb!(Plain { a b c d e f g });
    arb!(Nested { a b c d e f });
    arb!(Empty {});
    arb!(Times { a b c });
    arb!(Colls { a b c d e f g });
    arb!(Wide { a b c d });
    #[cfg(any(feature = "json", feature = "ron"))]
    arb!(Attrs { a b c d e f g h });
    #[cfg(any(feature = "json", feature = "ron"))]
    arb!(AllDefault { a b c d });
    #[cfg(feature = "json")]
    arb!(Nulls { a b c });
    #[cfg(feature = "json")]
    impl Arb for Thin { fn arb(r: &mut Rng, d: usize) -> Self { Thin(Arb::arb(r, d)) } }
    #[cfg(feature = "json")]
    impl Arb for Named {
        fn arb(r: &mut Rng, d: usize) -> Self { match r.below(3) { 0 => Named::A, 1 => Named::B(Arb::arb(r, d)), _ => Named::C { x: Arb::arb(r, d) } } }
    }
    impl Arb for Marker { fn arb(_: &mut Rng, _: usize) -> Self { Marker } }
    impl Arb for Tuple { fn arb(r: &mut Rng, d: usize) -> Self { Tuple(Arb::arb(r, d), Arb::arb(r, d), Arb::arb(r, d)) } }
    impl Arb for One { fn arb(r: &mut Rng, d: usize) -> Self { One(Arb::arb(r, d)) } }
    impl Arb for Unit { fn arb(r: &mut Rng, _: usize) -> Self { match r.below(3) { 0 => Unit::A, 1 => Unit::B, _ => Unit::C } } }
    impl Arb for Mixed {
        fn arb(r: &mut Rng, d: usize) -> Self {
            match r.below(if d == 0 { 4 } else { 8 }) {
                0 => Mixed::A,
                1 => Mixed::B(Arb::arb(r, d)),
                2 => Mixed::C(Arb::arb(r, d), Arb::arb(r, d)),
                3 => Mixed::G(Arb::arb(r, d)),
                4 => Mixed::D { x: Arb::arb(r, d), y: Arb::arb(r, d) },
                5 => Mixed::E(Arb::arb(r, d - 1)),
                6 => Mixed::F { m: Arb::arb(r, d - 1) },
                _ => Mixed::H(Arb::arb(r, d)),
            }
        }
    }
    impl<T: Arb + Clone> Arb for Generic<T> { fn arb(r: &mut Rng, d: usize) -> Self { Generic { t: Arb::arb(r, d), v: Arb::arb(r, d), o: Arb::arb(r, d) } } }
    impl<const N: usize> Arb for Konst<N> { fn arb(r: &mut Rng, d: usize) -> Self { Konst { a: Arb::arb(r, d), b: Arb::arb(r, d) } } }
}
#[cfg(any(feature = "binary", feature = "json", feature = "ron"))]
use arbs::*;

/// One type of one format.
struct Entry {
    name: &'static str,
    ser: fn(&mut Rng, usize) -> Vec<u8>,
    de: fn(&[u8]) -> String,
}
fn shown<T: Debug>(t: T) -> String {
    format!("Ok {:?}", t)
}
#[cfg(feature = "binary")]
fn bin<T: Arb + nanoserde::SerBin + nanoserde::DeBin + Debug>(name: &'static str) -> Entry {
    Entry {
        name,
        ser: |r, d| nanoserde::SerBin::serialize_bin(&T::arb(r, d)),
        de: |b| {
            let mut o = 0;
            match T::de_bin(&mut o, b) {
                Ok(x) => format!("{} using {}", shown(x), o),
                Err(e) => format!("Err at {}: {:?}", e.o, e),
            }
        },
    }
}
#[cfg(feature = "json")]
fn json<T: Arb + nanoserde::SerJson + nanoserde::DeJson + Debug>(name: &'static str) -> Entry {
    Entry {
        name,
        ser: |r, d| nanoserde::SerJson::serialize_json(&T::arb(r, d)).into_bytes(),
        de: |b| match T::deserialize_json(&String::from_utf8_lossy(b)) {
            Ok(x) => shown(x),
            Err(e) => format!("Err at {}:{}", e.line, e.col),
        },
    }
}
#[cfg(feature = "ron")]
fn ron<T: Arb + nanoserde::SerRon + nanoserde::DeRon + Debug>(name: &'static str) -> Entry {
    Entry {
        name,
        ser: |r, d| nanoserde::SerRon::serialize_ron(&T::arb(r, d)).into_bytes(),
        de: |b| match T::deserialize_ron(&String::from_utf8_lossy(b)) {
            Ok(x) => shown(x),
            Err(e) => format!("Err at {}:{}", e.line, e.col),
        },
    }
}
macro_rules! common {
    ($f:ident) => {
        vec![
            $f::<u8>("u8"), $f::<u16>("u16"), $f::<u32>("u32"), $f::<u64>("u64"), $f::<usize>("usize"),
            $f::<i8>("i8"), $f::<i16>("i16"), $f::<i32>("i32"), $f::<i64>("i64"), $f::<f32>("f32"), $f::<f64>("f64"),
            $f::<bool>("bool"), $f::<String>("String"), $f::<()>("()"), $f::<Duration>("Duration"), $f::<Option<u8>>("Option<u8>"),
            $f::<Vec<u8>>("Vec<u8>"), $f::<Vec<String>>("Vec<String>"), $f::<Vec<f64>>("Vec<f64>"), $f::<LinkedList<i16>>("LinkedList<i16>"),
            $f::<BTreeSet<String>>("BTreeSet<String>"), $f::<BTreeMap<String, Vec<u8>>>("BTreeMap<String, Vec<u8>>"), $f::<BTreeMap<u8, u8>>("BTreeMap<u8, u8>"),
            $f::<[u16; 3]>("[u16; 3]"), $f::<[String; 2]>("[String; 2]"), $f::<(u8, String)>("(u8, String)"), $f::<(u8, i8, f32)>("(u8, i8, f32)"),
            $f::<(bool, u8, u8, String)>("(bool, u8, u8, String)"), $f::<Box<i64>>("Box<i64>"), $f::<Box<Vec<Option<String>>>>("Box<Vec<Option<String>>>"),
            $f::<Plain>("Plain"), $f::<Nested>("Nested"), $f::<Tuple>("Tuple"), $f::<One>("One"), $f::<Unit>("Unit"), $f::<Mixed>("Mixed"),
            $f::<Vec<Mixed>>("Vec<Mixed>"), $f::<Generic<u8>>("Generic<u8>"), $f::<Generic<Mixed>>("Generic<Mixed>"), $f::<Konst<2>>("Konst<2>"),
            $f::<Empty>("Empty"), $f::<Times>("Times"), $f::<Colls>("Colls"), $f::<BTreeMap<String, Nested>>("BTreeMap<String, Nested>"),
        ]
    };
}
fn entries(fmt: &str) -> Vec<Entry> {
    match fmt {
        #[cfg(feature = "binary")]
        "binary" => {
            let mut v = common!(bin);
            v.extend([bin::<u128>("u128"), bin::<i128>("i128"), bin::<Wide>("Wide"), bin::<Marker>("Marker"), bin::<Option<Option<u8>>>("Option<Option<u8>>")]);
            v
        }
        #[cfg(feature = "json")]
        "json" => {
            let mut v = common!(json);
            v.extend([json::<Attrs>("Attrs"), json::<AllDefault>("AllDefault"), json::<Thin>("Thin"), json::<Nulls>("Nulls"), json::<Named>("Named"), json::<Marker>("Marker")]);
            v
        }
        #[cfg(feature = "ron")]
        "ron" => {
            let mut v = common!(ron);
            v.extend([ron::<Attrs>("Attrs"), ron::<AllDefault>("AllDefault")]);
            v
        }
        #[cfg(feature = "toml")]
        "toml" => vec![Entry {
            name: "toml",
            ser: |r, _| doc(r).into_bytes(),
            de: |b| match nanoserde::TomlParser::parse(&String::from_utf8_lossy(b)) {
                Ok(m) => {
                    let mut m: Vec<_> = m.into_iter().map(|(k, v)| format!("{:?}: {:?}", k, v)).collect();
                    m.sort();
                    shown(m)
                }
                Err(e) => format!("Err at {}:{}", e.line, e.col),
            },
        }],
        _ => vec![],
    }
}
fn doc(r: &mut Rng) -> String {
    fn val(r: &mut Rng, d: usize) -> String {
        match r.below(if d == 0 { 9 } else { 11 }) {
            0 => i64::arb(r, 0).to_string(),
            1 => format!("{:?}", f64::arb(r, 0)),
            2 => r.pick(&["true", "false", "inf", "-inf", "nan", "+1_000", "-0", "1.25", "1979-05-27", "1979-05-27T07:32:00"]).to_string(),
            3 | 4 => format!("\"{}\"", String::arb(r, 0).replace('\\', "\\\\").replace('"', "\\\"").replace(|c: char| c < ' ', "\\n")),
            5 => "\"\"\"a\n\"b\" \\u00e9\"\"\"".into(),
            6 => "\"\\b\\t\\u00E9\\U0001F600\"".into(),
            7 => "[]".into(),
            8 => r.pick(&["[1, 2,\n 3,]", "[ # c\n \"x\" ]", "'lit'", "{a = 1}", "0x1f", "1e5", ""]).to_string(),
            _ => {
                let v: Vec<String> = (0..r.below(4)).map(|_| val(r, d - 1)).collect();
                format!("[{}]", v.join(r.pick(&[",", ", ", ",\n", " , "])))
            }
        }
    }
    let mut s = String::new();
    for _ in 0..r.below(7) {
        match r.below(8) {
            0 => s.push_str(&format!("[{}]", r.pick(&["t", "a.b", "\"q\"", "t-1", "x.\"y\""]))),
            1 => s.push_str(&format!("[[{}]]", r.pick(&["t", "a.b", "arr"]))),
            2 => s.push_str(r.pick(&["# comment", "", "  ", "\t# é"])),
            _ => {
                let k = r.pick(&["a", "b", "key", "a.b", "\"quoted key\"", "x-y", "_", "k1", "é", "1"]);
                s.push_str(&format!("{}{}={}{}{}", k, r.pick(&[" ", ""]), r.pick(&[" ", ""]), val(r, 2), r.pick(&["", "", " # c"])))
            }
        }
        s.push_str(r.pick(&["\n", "\n", "\n", "\r\n", "\n\n", ""]))
    }
    s
}
const WORDS: &[&str] = &[
    "{", "}", "[", "]", "(", ")", ",", ":", "\"a\"", "\"b\":", "null", "true", "false", "None", "Some", "1", "-1", "0.5", "1e5", "-0", "300", "99999999999999999999", "a", "a:", "x", "secs", "nanos:1", "A",
    "\"A\"", "\"D\"", "B(1)", " ", "\n", "//c\n", "/*c*/", "\"", "\\u00e9", "\"\\ud83d\\ude00\"", "\"\\ud83d\"", "'c'", "é", "\0", "=", "\"\"\"", "#", "inf", "nan", "\t", "1979-05-27", "+1", "1_000", ".5", "5.", "@",
];
fn mutate(r: &mut Rng, b: &mut Vec<u8>, text: bool) {
    for _ in 0..1 + r.below(3) {
        let n = b.len();
        match r.below(6) {
            0 => b.truncate(r.below(n + 1)),
            1 if n > 0 => {
                b.remove(r.below(n));
            }
            2 if n > 0 => {
                let i = r.below(n);
                b[i] = if text { *r.pick(&[&b' ', &b'"', &b',', &b'{', &b'}', &b'0', &b'9', &b'a', &b'\\', &b'.', &b'-', &b'\n']) } else { *r.pick(&[&0, &1, &2, &3, &7, &127, &128, &255]) }
            }
            3 if n > 0 => {
                let (i, j) = (r.below(n), r.below(n));
                b.swap(i, j)
            }
            _ => {
                let i = r.below(n + 1);
                let w: Vec<u8> = if text { r.pick(WORDS).as_bytes().to_vec() } else { vec![r.next() as u8; r.below(4)] };
                b.splice(i..i, w);
            }
        }
    }
}
struct Case {
    e: usize,
    /// what was written, None if the case only decodes
    wrote: Option<Vec<u8>>,
    input: Vec<u8>,
}
fn case(fmt: &str, es: &[Entry], idx: u64, seed: u64) -> Case {
    let mut r = Rng::new(seed, fmt, idx);
    let e = r.below(es.len());
    let text = fmt != "binary";
    let d = 1 + r.below(3);
    let mut b;
    let mut wrote = None;
    match r.below(10) {
        0..=3 => {
            b = (es[e].ser)(&mut r, d);
            wrote = Some(b.clone())
        }
        4..=7 => {
            b = (es[e].ser)(&mut r, d);
            wrote = Some(b.clone());
            mutate(&mut r, &mut b, text)
        }
        _ if text => b = (0..r.below(14)).map(|_| r.pick(WORDS)).collect::<Vec<_>>().concat().into_bytes(),
        _ => b = (0..r.below(24)).map(|_| if r.below(2) == 0 { r.below(4) as u8 } else { r.next() as u8 }).collect(),
    }
    Case { e, wrote, input: b }
}
fn text_of(es: &[Entry], c: &Case) -> String {
    let de = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (es[c.e].de)(&c.input))).unwrap_or_else(|_| "panicked".into());
    let mut s = String::new();
    let _ = write!(s, "{}: ", es[c.e].name);
    if let Some(w) = &c.wrote {
        let _ = write!(s, "writes {:?}; ", String::from_utf8_lossy(w));
    }
    let _ = write!(s, "{:?} decodes as {}", String::from_utf8_lossy(&c.input), de);
    s
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let num = |i: usize| a[i].parse::<u64>().unwrap();
    match a[1].as_str() {
        "run" => {
            let (seed, count, out) = (num(2), num(3), &a[4]);
            let mut stats = String::new();
            for fmt in ["binary", "json", "ron", "toml"] {
                let es = entries(fmt);
                if es.is_empty() {
                    continue;
                }
                let mut h = vec![];
                let (mut ok, mut seen) = (0, HashSet::new());
                for i in 0..count {
                    let c = case(fmt, &es, i, seed);
                    let t = text_of(&es, &c);
                    if t.contains(" decodes as Ok") && c.input.len() > 1 {
                        ok += 1;
                        seen.insert(hash(&[es[c.e].name.as_bytes(), &c.input].concat()));
                    }
                    h.extend(hash(t.as_bytes()).to_le_bytes());
                }
                std::fs::write(format!("{}/{}", out, fmt), h).unwrap();
                let _ = writeln!(stats, "{} {} {} {}", fmt, count, ok, seen.len());
            }
            std::fs::write(format!("{}/stats", out), stats).unwrap();
        }
        "show" => {
            let es = entries(&a[2]);
            println!("{}", text_of(&es, &case(&a[2], &es, num(3), num(4))))
        }
        "case" => {
            let es = entries(&a[2]);
            let c = case(&a[2], &es, num(3), num(4));
            println!("{} {}", c.e, c.input.iter().map(|b| format!("{:02x}", b)).collect::<String>())
        }
        "eval" => {
            let es = entries(&a[2]);
            println!("{}", text_of(&es, &Case { e: a[3].parse().unwrap(), wrote: None, input: unhex(a.get(4).map_or("", |s| s)) }))
        }
        _ => panic!("usage"),
    }
}
