#!/usr/bin/env python3
"""handgen.py: zoo/src/hand.rs on stdout: types a generator would not come up with."""
import re
from progen import Gen, T

g = Gen(0, "H")
ALL = "SerBin DeBin SerJson DeJson SerRon DeRon"
out, reg = [], []


def split(s):
    parts, d, cur = [], 0, ""
    for c in s:
        d += c in "<([{"
        d -= c in ">)]}"
        if c == "," and d == 0:
            parts.append(cur.strip())
            cur = ""
        else:
            cur += c
    return [p for p in parts + [cur.strip()] if p]


def fd(s, named):
    attr, ren = re.match(r"((?:#\[.*?\]\s*)*)", s).group(1), None
    s = s[len(attr):]
    name, t = re.match(r"([^\s:]+)\s*:(?!:)(.*)$", s, re.S).groups() if named else (None, s)
    t = t.strip()
    f = g.fdef_dict(name and name.strip(), T(t, default=False, opt=t.startswith("Option<")))
    m = re.search(r'rename = "((?:[^"\\]|\\.)*)"', attr)
    f["json"] = f["ron"] = m.group(1) if m else f["name"] or ""
    f["attr"] = attr.strip()
    f["skip"] = "(skip)" in attr
    if f["skip"]:
        f["t"].default = True
    return f


def struct(n, body, derive=ALL, fmts="bin json ron"):
    fs = [fd(s, True) for s in split(body)]
    out.append("#[derive(%s)]\npub struct %s {\n%s}\n" % (", ".join(derive.split()), n, "".join("    %s pub %s: %s,\n" % (f["attr"], f["name"], f["t"].s) for f in fs))
               + g.impl_struct(n, "", "", "", "Named", False, False, fs))
    reg.append((n, fmts))


def tup(n, body, derive=ALL, fmts="bin json ron", attrs=(), transparent=False):
    fs = [fd(s, False) for s in split(body)]
    out.append("#[derive(%s)]\n%spub struct %s(%s);\n" % (", ".join(derive.split()), "".join("#[nserde(%s)]\n" % a for a in attrs), n, ", ".join(f["attr"] + " pub " + f["t"].s for f in fs))
               + g.impl_struct(n, "", "", "", "Tuple", transparent, False, fs))
    reg.append((n, fmts))


def enum(n, variants, derive=ALL, fmts="bin json ron"):
    vs, vd, fv, tv = [], [], [], []
    for i, v in enumerate(split(variants)):
        m = re.match(r'(?:#\[nserde\(rename = "((?:[^"\\]|\\.)*)"\)\]\s*)?([^\s({]+)\s*(?:([({])(.*)[)}])?$', v)
        ren, name, o, body = m.groups()
        if ren is None:
            ren = name
        fs = [fd(s, o == "{") for s in split(body or "")]
        kind = "Unit" if not o else "Tuple" if o == "(" else "Named"
        vs.append("    %s,\n" % v)
        vd.append('VariantDef { name: "%s", json: "%s", kind: Kind::%s, fields: &[%s] }' % (name, ren, kind, ", ".join(g.fielddef(f) for f in fs)))
        k = len(fs)
        if kind == "Unit":
            pat, mk = name, name
        elif kind == "Tuple":
            pat = "%s(%s)" % (name, ", ".join("b%d" % j for j in range(k)))
            mk = "%s(%s)" % (name, ", ".join("Subject::from_val(&x_[%d])" % j for j in range(k)))
        else:
            pat = "%s { %s }" % (name, ", ".join("%s: b%d" % (f["name"], j) for j, f in enumerate(fs)))
            mk = "%s { %s }" % (name, ", ".join("%s: Subject::from_val(&x_[%d])" % (f["name"], j) for j, f in enumerate(fs)))
        fv.append("%d => Self::%s," % (i, mk))
        tv.append("Self::%s => Val::Enum(%d, vec![%s])," % (pat, i, ", ".join("b%d.to_val()" % j for j in range(k))))
    out.append("""#[derive(%s)]
pub enum %s {
%s}
impl Subject for %s {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "%s", variants: &[%s] });
    fn from_val(v: &Val) -> Self { let Val::Enum(i_, x_) = v else { panic!("harness: shape") }; let _ = x_; match i_ { %s _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { %s } }
}""" % (", ".join(derive.split()), n, "".join(vs), n, n, ", ".join(vd), " ".join(fv), " ".join(tv)))
    reg.append((n, fmts))


# elements whose drops are counted, inside derived types
struct("TrackedNamed", "a: Tracked, b: [Tracked; 3], c: Option<Tracked>, d: Vec<[Tracked; 2]>, e: (Tracked, Tracked), f: Box<Tracked>, g: BTreeMap<String, Tracked>, z: Tracked")
tup("TrackedTuple", "Tracked, [Tracked; 3], (Tracked, [Tracked; 2], u8), Tracked")
enum("TrackedEnum", "A(Tracked), B([Tracked; 3], Tracked), C((Tracked, [Tracked; 2], u8), [Tracked; 2]), D(TrackedNamed), E { a: Tracked, b: [Tracked; 3], c: Vec<Tracked> }, F")
for t in ["[TrackedNamed; 2]", "[TrackedEnum; 3]", "Vec<TrackedEnum>", "Option<[TrackedTuple; 2]>", "BTreeMap<String, [TrackedEnum; 2]>", "[[TrackedEnum; 2]; 2]", "LinkedList<TrackedTuple>"]:
    reg.append((t, "bin json ron"))
# maps, with keys and hashers of all kinds, as members
struct("Maps", """a: HashMap<String, u8>, b: HashMap<u16, Vec<u8>>, c: BTreeMap<i32, BTreeMap<String, bool>>, d: HashMap<String, Option<u8>>,
    e: BTreeMap<(u8, String), i8>, f: BTreeMap<Vec<u8>, String>, g: HashSet<String>, h: HashMap<bool, [u8; 2]>, i: BTreeMap<String, Duration>""")
struct("OtherHashed", "a: HashMap<String, u8, Other>, b: Vec<HashMap<String, Tree, Other>>", "SerJson DeJson", "json")
# one of each
struct("Everything", """a: bool, b: u8, c: u16, d: u32, e: u64, f: usize, g: i8, h: i16, i: i32, j: i64, k: f32, l: f64, m: String, n: (), o: Duration, p: SystemTime,
    q: Option<Box<u8>>, r: Vec<u8>, s: LinkedList<String>, t: HashSet<u32>, u: BTreeSet<i64>, v: [u16; 3], w: (u8, u16), x: (u8, u16, f32), y: (u8, u16, f32, String), z: Maps""")
reg.append(("Vec<Everything>", "bin json ron"))
struct("WideInts", "a: u128, b: i128, c: Vec<u128>, d: Option<i128>, e: [u128; 2], f: Option<Option<u8>>, g: Option<()>", "SerBin DeBin", "bin")
# options at the ends and in a row
struct("Options", "a: Option<u8>, b: Option<String>, c: Option<Vec<u8>>, d: Option<Box<Options>>, e: Option<Duration>")
reg.append(("[Options; 2]", "bin json ron"))
struct("OptionsMid", "a: u8, b: Option<u8>, c: u8, d: Option<String>")
struct("OptionLast", "a: u8, b: Option<f64>")
struct("OptionFirst", "a: Option<f64>, b: u8")
# trees
struct("Tree", "v: i32, kids: Vec<Tree>")
struct("Chain", "next: Option<Box<Chain>>")
enum("Expr", "Nil, Num(f64), Text(String), Neg(Box<Expr>), Add(Box<Expr>, Box<Expr>), Call { f: String, args: Vec<Expr> }, Rec(BTreeMap<String, Expr>)")
reg.append(("Vec<Expr>", "bin json ron"))
reg.append(("HashMap<String, Expr>", "bin json ron"))
# tuples in tuple structs
tup("TupTup", "(u8, String), (u8, u16, u32, u64), (u8, String)")
tup("One", "u8")
tup("OneVec", "Vec<Expr>")
tup("OneOne", "One")
tup("OneTup", "(u8, String)")
tup("OneArr", "[One; 2]")
# names with marks and other characters that go into names but are no letters
struct("Marks", "नमस्ते: u8, नम: Option<u8>, x̂: String, x̂y: MarkEnum, a·b: Vec<MarkEnum>, a‿b: (u8, u8), ℘: bool, ℮1: u16, क्षि: Option<Box<Marks>>, x: u8")
enum("MarkEnum", "X̂, Aि(u8), ℘z { क्ष: u8, क: u8 }, Á्, X")
# other names of types
out.append("pub type Maybe<T> = Option<T>;\npub type Text = String;\npub type Few = [Maybe<u8>; 2];\n")
struct("Aliases", "a: Maybe<u8>, b: Maybe<Text>, c: Vec<Maybe<Aliased>>, d: Text, e: Few, f: Option<Few>")
tup("AliasedTup", "Maybe<u8>, Text, Few")
enum("Aliased", "A(Maybe<u8>), B { x: Maybe<Text>, y: Few }, C")
# only `transparent` makes one
tup("OneDefault", "u8", ALL + " Default", attrs=["default"])
tup("OneNull", "Option<u8>", attrs=["serialize_none_as_null"])
tup("OneSkip", "String", attrs=["skip"])
tup("OneCrate", "Vec<u8>", attrs=['crate = "nanoserde"'])
tup("OneBoth", "Option<String>", attrs=["serialize_none_as_null", "transparent"], transparent=True)
tup("OneClear", "OneDefault", attrs=["transparent", "default"], derive=ALL + " Default", transparent=True)
struct("Ones", "a: OneDefault, b: Option<OneNull>, c: Vec<OneSkip>, d: OneCrate, e: OneBoth, f: OneClear")
reg.append(("[One; 2]", "bin json ron"))
enum("Nested", "A(Expr), B { a: Expr }, C(One, Vec<One>), D((u8, u8)), E([u8; 2]), F(Box<Nested>), G(Option<Box<Nested>>), H { h: Option<Box<Nested>>, i: u8 }")
reg.append(("BTreeMap<String, Nested>", "bin json ron"))
# alike but for something small
enum("Alike", "A, Aa, AA, a { x: u8 }, aa(u8), A_, A1(u8, u8), A11 { x: u8, xx: u8, x_: u8, _x: u8, X: u8 }")
struct("Alikes", "a: u8, aa: u8, aaa: Option<u8>, a_: u8, _a: u8, A: u8, a1: Option<Alike>, a11: u8")
# nearly words of the formats
enum("Wordy", "NONE, none, Nones, none_, NoneA(u8), Some(u8), SOME { a: u8 }, some(String), null, NULL, Null { none: Option<u8>, null: Option<u8> }, nul, "
     "True, TRUE, true_, trueish(bool), False(bool), inf, NaN, nan, Infinity, nil, Ok(u8), Err, secs, nanos, Default, e1, E1, e, E(u8), _x, u0041, x0 { true_: bool, NONE: Option<Box<Wordy>> }")
struct("Wordies", "none: Option<Wordy>, some: Vec<Option<Wordy>>, null: Option<Box<Wordy>>, NONE: (Option<Wordy>, u8), Some: BTreeMap<String, Option<Wordy>>, None: [Option<Wordy>; 2], "
       "nulls: Option<u8>, none_: Option<bool>, truex: bool, nan: f32, inf: f64, e: u8")
tup("WordyOpts", "Option<Wordy>, Option<Wordy>, Option<Wordies>")
reg.append(("Option<Wordy>", "bin json ron"))
reg.append(("Vec<Option<Wordy>>", "bin json ron"))

# skipped members at every place
BR = "SerBin DeBin SerRon DeRon"
S = "#[nserde(skip)] "
tup("SkipFirst", S + "u8, u16", BR, "bin ron")
tup("SkipFirstTwo", S + "u8, " + S + "String, u16, (u8, u16)", BR, "bin ron")
tup("SkipMid", "u8, " + S + "String, u16", BR, "bin ron")
tup("SkipLast", "u8, String, " + S + "u16", BR, "bin ron")
tup("SkipLastTwo", "u8, " + S + "String, " + S + "u16", BR, "bin ron")
tup("SkipEnds", S + "Vec<u8>, Option<u8>, " + S + "u16", BR, "bin ron")
tup("SkipOdd", "u8, " + S + "u8, u8, " + S + "u8, u8", BR, "bin ron")
tup("SkipAll", S + "u8, " + S + "String", BR, "bin ron")
struct("SkipNamedFirst", S + "a: u8, b: u16, c: Option<u8>")
struct("SkipNamedMid", "a: u8, " + S + "b: u16, c: Vec<u8>")
struct("SkipNamedLast", "a: u8, b: u16, " + S + "c: Option<u8>")
struct("SkipNamedAll", S + "a: u8, " + S + "b: u16")
struct("SkipNamedOpts", "a: Option<u8>, " + S + "b: Option<u16>, c: Option<u8>, " + S + "d: String")
reg.append(("Vec<SkipFirst>", "bin ron"))
# names that differ by little
JB = "SerBin DeBin SerJson DeJson"
# every way to write a character of a name
ESC = ["\\n", "\\r", "\\t", "\\0", "\\x41", "\\x7f", "\\x7E", "\\x0b", "\\'", "\\u{e9}", "\\u{1_F600}", "\\u{10fffF}", "\\\\n", "\\\\u{41}", "\\x5c", "\\x22",
       "\\u{a}b\\x61\\n\\u{5C}\\x6d"]
R = '#[nserde(rename = "%s")] '
enum("RenamedAlike", ", ".join(R % x + y for x, y in [
    ("", "A"), (" ", "B"), ("a", "C"), (" a", "D"), ("a ", "E(u8)"), (" a ", "F { x: u8 }"), ("A", "G(u8, u8)"), ("a\\t", "H"), ("\\na", "I"),
    ("a\u00a0", "J"), ("\u3000a", "K(String)"), ("e\u0301", "M"), ("\u00e9", "N { y: Option<u8> }"), ('\\"', "O"), ("\\\\", "P"), ("'", "Q"),
    ("a\\u{200b}", "R(u8)"), ("a\\u{feff}", "S")]), JB, "bin json")
struct("EscapedNames", ", ".join('#[nserde(rename = "%s")] m%d: %s' % (e, i, "u8" if i % 3 else "Option<u8>") for i, e in enumerate(ESC)), JB, "bin json")
enum("EscapedVariants", ", ".join('#[nserde(rename = "%s")] V%d%s' % (e, i, ["", "(u8)", " { x: u8 }"][i % 3]) for i, e in enumerate(ESC)), JB, "bin json")
struct("EscapedLater", "a: Vec<EscapedNames>, b: Vec<EscapedVariants>", JB, "bin json")
struct("RenamedAlikes", ", ".join(R % x + y for x, y in [
    ("", "a: u8"), (" ", "b: Option<u8>"), ("a", "c: u8"), (" a", "d: Option<RenamedAlike>"), ("a ", "e: Vec<RenamedAlike>"), ("A", "f: u8"), ("a\\t", "g: String"),
    ("\\na", "h: bool"), ("a\u00a0", "i: u8"), ("\u3000a", "j: u8"), ("e\u0301", "k: u8"), ("\u00e9", "l: u8"), ('\\"', "m: u8"), ("\\\\", "n: u8"), ("a\\u{feff}", "o: u8")]), JB, "bin json")

print("""// Written by tools/handgen.py
#![allow(unused, non_snake_case, non_camel_case_types, clippy::all)]
use nanoserde::{DeBin, DeJson, DeRon, SerBin, SerJson, SerRon};
use std::collections::*;
use std::hash::{BuildHasherDefault, DefaultHasher};
use std::time::{Duration, SystemTime};
use vcore::entry;
use vcore::reg::Entry;
use vcore::track::Tracked;
use vcore::val::*;
type Other = BuildHasherDefault<DefaultHasher>;
""")
print("\n\n".join(out))
print("""
// made by macros, names coming from outside
macro_rules! made {
    ($n:ident, $a:ident, $b:ident) => {
        #[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
        pub struct $n { pub $a: u8, #[nserde(rename = "key_")] pub $b: Vec<$a> }
    };
}
#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum elem { X, Y { n: u8 } }
impl Subject for elem {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "elem", variants: &[
        VariantDef { name: "X", json: "X", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Y", json: "Y", kind: Kind::Named, fields: &[%s] },
    ] });
    fn from_val(v: &Val) -> Self {
        match v { Val::Enum(0, _) => elem::X, Val::Enum(_, x) => elem::Y { n: u8::from_val(&x[0]) }, _ => panic!("harness: shape") }
    }
    fn to_val(&self) -> Val {
        match self { elem::X => Val::Enum(0, vec![]), elem::Y { n } => Val::Enum(1, vec![n.to_val()]) }
    }
}
made!(Made, elem, other);
%s

pub fn reg() -> Vec<Entry> {
    vec![
%s        entry!(elem; bin json ron),
        entry!(Made; bin json ron),
    ]
}""" % (g.fielddef(fd("n: u8", True)),
        g.impl_struct("Made", "", "", "", "Named", False, False, [fd("elem: u8", True), dict(fd("other: Vec<elem>", True), json="key_", ron="key_")]),
        "".join("        entry!(%s; %s),\n" % x for x in reg)))
