#!/usr/bin/env python3
"""matgen.py: zoo/src/mat.rs on stdout: every meaningful set of member attributes, on members of
every kind of type, in every kind of container, one by one (the generator of programs draws them
at random; here none is left to luck)."""
import random
from progen import Gen, T, HEADER

r = random.Random(7)
g = Gen(0, "M")
ALL = "SerBin DeBin SerJson DeJson SerRon DeRon"
units = []   # (name, code, [(type, formats)])

# type, literal attribute, its value, is an Option
TYPES = [
    ("u8", "default = 5", "5"),
    ("i64", 'default = "-5"', "-5"),
    ("f32", "default = 1.5", "1.5"),
    ("bool", 'default = "true"', "true"),
    ("String", 'default = "a \\"b\\" {}"', 'String::from("a \\"b\\" {}")'),
    ("i16", "default = -7", "-7"),
    ("Option<f64>", "default = -0.5", "Some(-0.5)"),
    ("Option<bool>", "default = true", "Some(true)"),
    ("String", 'default = r#"a "b" \\{}"#', 'String::from("a \\"b\\" \\\\{}")'),
    ("Vec<String>", 'default = "vec![String::from(\\"a\\\\n\\")]"', 'vec![String::from("a\\n")]'),
    ("Option<Vec<String>>", 'default = r#"vec![String::from("a\\n")]"#', 'Some(vec![String::from("a\\n")])'),
    ("Vec<u16>", 'default = "vec![1, 2]"', "vec![1, 2]"),
    ("(u8, String)", 'default = "(1, String::new())"', "(1, String::new())"),
    ("MSmall", 'default = "MSmall { x: 3, y: None }"', "MSmall { x: 3, y: None }"),
    ("MKind", 'default = "MKind::B(4)"', "MKind::B(4)"),
    ("BTreeMap<String, u8>", 'default = "mdflt()"', "mdflt()"),
    ("Option<u8>", "default = 7", "Some(7)"),
    ("Option<String>", 'default = "x"', 'Some(String::from("x"))'),
    ("Option<MSmall>", 'default = "MSmall { x: 9, y: Some(true) }"', "Some(MSmall { x: 9, y: Some(true) })"),
    ("Option<MKind>", 'default = "MKind::C { a: None }"', "Some(MKind::C { a: None })"),
    ("Option<Vec<Option<u8>>>", 'default = "vec![None, Some(1)]"', "Some(vec![None, Some(1)])"),
]
# n rename, d default, l literal, w default_with, s skip, o serialize_none_as_null
SETS = ["", "n", "d", "l", "w", "s", "nd", "nl", "nw", "ns", "sd", "sl", "sw", "nsd", "nsl"]
OPT = ["o", "no", "do", "lo", "wo", "nlo"]


def ident(t):
    return "".join(c for c in t if c.isalnum())


def field(k, ty, lit, val, s, fns, tag, names):
    opt = ty.startswith("Option<")
    name = "f%d" % k
    f = g.fdef_dict(name, T(ty, opt=opt))
    a = []
    if "n" in s:
        ren = names[k % len(names)] + str(k)
        a.append('rename = "%s"' % ren)
        f["json"] = f["ron"] = ren
    if "d" in s:
        a.append("default")
        f["dflt"] = "Dflt::TypeDefault"
    if "l" in s:
        a.append(lit)
        f["dflt"] = "Dflt::Value(|| { let x: %s = %s; x.to_val() })" % (ty, val)
    if "w" in s:
        fn = "mw_%s_%d" % (tag, k)
        fns.append("fn %s() -> %s { <%s as Subject>::from_val(&vcore::gen::sample::<%s>(%d)) }" % (fn, ty, ty, ty, 1000 + len(units) * 31 + k))
        a.append('default_with = "%s"' % fn)
        f["dflt"] = "Dflt::Value(|| %s().to_val())" % fn
    if "s" in s:
        a.append("skip")
        f["skip"] = True
    if "o" in s:
        a.append("serialize_none_as_null")
        f["null"] = True
    r.shuffle(a)
    if len(a) > 1 and r.random() < 0.5:
        f["attrs"] = "".join("#[nserde(%s)] " % x for x in a)
    else:
        f["attrs"] = "#[nserde(%s)] " % ", ".join(a) if a else ""
    return f


NAMES = ["Ren", "ключ_", "type", "N", "some_", "_"]


def struct(name, fs, fns, cattr=""):
    cd = "default" in cattr
    if "null" in cattr:
        for f in fs:
            f["null"] = f["t"].opt
    code = "#[derive(%s)]\n%spub struct %s {\n%s}\n" % (", ".join(ALL.split()), "#[nserde(%s)]\n" % cattr if cattr else "", name,
                                                      "".join("    %spub %s: %s,\n" % (f["attrs"], f["name"], f["t"].s) for f in fs))
    code += g.impl_struct(name, "", "", "", "Named", False, cd, fs) + "\n" + "\n".join(fns) + "\n"
    units.append((name, code, [(name, ["bin", "json", "ron"])]))


def enum(name, vs, fns, derive=ALL, fmts=("bin", "json", "ron")):
    """vs: lists of fields"""
    lines, vd, fv, tv = [], [], [], []
    for i, fs in enumerate(vs):
        v = "V%d" % i
        lines.append("    %s { %s },\n" % (v, ", ".join("%s%s: %s" % (f["attrs"], f["name"], f["t"].s) for f in fs)))
        vd.append('VariantDef { name: "%s", json: "%s", kind: Kind::Named, fields: &[%s] }' % (v, v, ", ".join(g.fielddef(f) for f in fs)))
        fv.append("%d => Self::%s { %s }," % (i, v, ", ".join("%s: Subject::from_val(&x_[%d])" % (f["name"], j) for j, f in enumerate(fs))))
        tv.append("Self::%s { %s } => Val::Enum(%d, vec![%s])," % (v, ", ".join("%s: b%d" % (f["name"], j) for j, f in enumerate(fs)), i, ", ".join("b%d.to_val()" % j for j in range(len(fs)))))
    code = """#[derive(%s)]
pub enum %s {
%s}
impl Subject for %s {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "%s", variants: &[%s] });
    fn from_val(v: &Val) -> Self { let Val::Enum(i_, x_) = v else { panic!("harness: shape") }; let _ = x_; match i_ { %s _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { %s } }
}
""" % (", ".join(derive.split()), name, "".join(lines), name, name, ", ".join(vd), " ".join(fv), " ".join(tv)) + "\n".join(fns) + "\n"
    units.append((name, code, [(name, list(fmts))]))


for i, (ty, lit, val) in enumerate(TYPES):
    # a type may be listed again with another spelling of its default
    again = "Again" if ty in [t[0] for t in TYPES[:i]] else ""
    opt = ty.startswith("Option<")
    sets = SETS + (OPT if opt else [])
    for c, cattr in [("S", ""), ("D", "default"), ("N", "serialize_none_as_null"), ("B", "default, serialize_none_as_null")]:
        if c in "NB" and not opt:
            continue
        n = "M%s%s%s" % (c, ident(ty), again)
        order = sets[:]
        r.shuffle(order)
        fns = []
        fs = [field(k, ty, lit, val, s, fns, n, NAMES) for k, s in enumerate(order)]
        struct(n, fs, fns, cattr)
    fns, vs = [], []
    n = "ME%s%s" % (ident(ty), again)
    k = 0
    for s in sets:
        other = r.choice(TYPES)
        fs = [field(k, ty, lit, val, s, fns, n, NAMES), field(k + 1, *other, "", fns, n, NAMES), field(k + 2, *other, r.choice(SETS), fns, n, NAMES)]
        r.shuffle(fs)
        vs.append(fs[:r.choice([1, 2, 3])] if r.random() < 0.4 else fs)
        k += 3
    enum(n, vs, fns)

# members with a proxy (JSON; the binary format proxies whole structs' members, RON has no proxies)
PX = [("MW", "default = \"mw(3)\"", "mw(3)"), ("Option<MW>", 'default = "mw(4)"', "Some(mw(4))")]
for ty, lit, val in PX:
    opt = ty.startswith("Option<")
    sets = ["", "n", "d", "l", "w", "s", "nd", "nw", "ns", "sd", "sw"] + (OPT if opt else [])
    for n, kind, cattr in [("MPX", "S", ""), ("MPD", "S", "default"), ("MPN", "S", "serialize_none_as_null"), ("MPE", "E", "")]:
        n += ident(ty)
        order = sets[:]
        r.shuffle(order)
        fns, fs = [], []
        for k, s in enumerate(order):
            f = field(2 * k, ty, lit, val, s, fns, n, NAMES)
            f["attrs"] = r.choice(['#[nserde(proxy = "MPx")] %s', '%s#[nserde(proxy = "MPx")] ']) % f["attrs"]
            fs.append(f)
            if k % 3 == 0:
                fs.append(field(2 * k + 1, *r.choice(TYPES), r.choice(SETS), fns, n, NAMES))
        J = "SerJson DeJson"
        if kind == "E":
            enum(n, [fs[:4], fs[4:9], fs[9:10], fs[10:]], fns, J, ["json"])
        else:
            keep, ALL = ALL, J
            struct(n, fs, fns, cattr)
            ALL = keep
            units[-1] = units[-1][:2] + ([(n, ["json"])],)
for n, body in [("MPBin", [("MW", True), ("u8", False), ("Option<MW>", True), ("MW", True)]), ("MPBinLast", [("String", False), ("MW", True)])]:
    fs = []
    for k, (ty, px) in enumerate(body):
        f = field(k, ty, "", "", "", [], n, NAMES)
        if px:
            f["attrs"] = '#[nserde(proxy = "%s")] ' % ("MPx" if ty == "MW" else "MPo")
        fs.append(f)
    keep, ALL = ALL, "SerBin DeBin"
    struct(n, fs, [])
    ALL = keep
    units[-1] = units[-1][:2] + ([(n, ["bin"])],)

for n, body in [("MPBinTup", [("MW", True), ("u8", False), ("Option<MW>", True), ("MW", True)]), ("MPBinOne", [("MW", True)]), ("MPBinSkip", [("String", False), ("MW", "skip"), ("Option<MW>", True)])]:
    fs = []
    for k, (ty, px) in enumerate(body):
        f = field(k, ty, "", "", "s" if px == "skip" else "", [], n, NAMES)
        if px:
            f["attrs"] = '#[nserde(proxy = "%s")] %s' % ("MPx" if ty == "MW" else "MPo", f["attrs"])
        f["name"] = None
        fs.append(f)
    code = "#[derive(SerBin, DeBin)]\npub struct %s(%s);\n" % (n, ", ".join("%spub %s" % (f["attrs"], f["t"].s) for f in fs))
    code += g.impl_struct(n, "", "", "", "Tuple", False, False, fs) + "\n"
    units.append((n, code, [(n, ["bin"])]))

SMALL = """
#[derive(SerBin, DeBin, SerJson, DeJson)]
pub struct MPx { inner: u16, more: Option<bool> }
%s
/// what is written is an MPx; for the binary format an Option of it as a whole has a proxy too
#[derive(Clone, Debug, PartialEq)]
pub struct MW { v: u16, w: Option<bool> }
impl Default for MW { fn default() -> Self { MW { v: 5, w: None } } }
fn mw(v: u16) -> MW { MW { v, w: Some(true) } }
impl Subject for MW {
    const TY: TyRef = <MPx as Subject>::TY;
    fn from_val(v: &Val) -> Self { let p = MPx::from_val(v); MW { v: p.inner, w: p.more } }
    fn to_val(&self) -> Val { MPx::from(self).to_val() }
}
impl From<&MW> for MPx { fn from(x: &MW) -> Self { MPx { inner: x.v, more: x.w } } }
impl From<&MPx> for MW { fn from(x: &MPx) -> Self { MW { v: x.inner, w: x.more } } }
#[derive(SerBin, DeBin)]
pub struct MPo { o: Option<MPx> }
impl From<&Option<MW>> for MPo { fn from(x: &Option<MW>) -> Self { MPo { o: x.as_ref().map(|x| x.into()) } } }
impl From<&MPo> for Option<MW> { fn from(x: &MPo) -> Self { x.o.as_ref().map(|x| x.into()) } }
#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct MSmall { x: u8, y: Option<bool> }
impl Default for MSmall { fn default() -> Self { MSmall { x: 77, y: Some(false) } } }
%s
#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum MKind { A, B(u8), C { a: Option<u8> } }
impl Default for MKind { fn default() -> Self { MKind::B(200) } }
impl Subject for MKind {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "MKind", variants: &[
        VariantDef { name: "A", json: "A", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "B", json: "B", kind: Kind::Tuple, fields: &[%s] },
        VariantDef { name: "C", json: "C", kind: Kind::Named, fields: &[%s] },
    ] });
    fn from_val(v: &Val) -> Self { match v {
        Val::Enum(0, _) => MKind::A, Val::Enum(1, x) => MKind::B(u8::from_val(&x[0])), Val::Enum(_, x) => MKind::C { a: Subject::from_val(&x[0]) }, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self {
        MKind::A => Val::Enum(0, vec![]), MKind::B(x) => Val::Enum(1, vec![x.to_val()]), MKind::C { a } => Val::Enum(2, vec![a.to_val()]) } }
}
fn mdflt() -> BTreeMap<String, u8> { [(String::from("k"), 1)].into_iter().collect() }
""" % (g.impl_struct("MPx", "", "", "", "Named", False, False, [g.fdef_dict("inner", T("u16")), g.fdef_dict("more", T("Option<bool>", opt=True))]),
       g.impl_struct("MSmall", "", "", "", "Named", False, False, [g.fdef_dict("x", T("u8")), g.fdef_dict("y", T("Option<bool>", opt=True))]),
       g.fielddef(g.fdef_dict(None, T("u8"))), g.fielddef(g.fdef_dict("a", T("Option<u8>", opt=True))))

if __name__ == "__main__":
    print(HEADER.replace("progen", "matgen") % "7" + SMALL)
    for n, code, _ in units:
        print(code)
    print("pub fn reg() -> Vec<Entry> {\n    vec![")
    for _, _, es in units:
        for t, f in es:
            print("        entry!(%s; %s)," % (t, " ".join(f)))
    print("    ]\n}")
