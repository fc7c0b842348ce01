#!/usr/bin/env python3
"""progen.py SEED COUNT [PREFIX]: a Rust module of COUNT random derived types on stdout.

Every type comes with its schema (what the attributes mean) and conversions from and to the
neutral value model, and is put into the registry, so that the property checks can run on it.
The grammar is what nanoserde documents or demonstrates as supported:
structs (named, tuple, unit) and enums (unit, tuple and struct variants, discriminants),
generics with bounds, defaults, where clauses and const parameters, recursive types,
rename/default/default_with/skip/transparent/serialize_none_as_null/proxy/crate attributes,
attributes of others and comments in between, qualified paths and aliases.
"""
import random, re, sys

LEAVES = ["bool", "u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "f32", "f64", "String"]
ALL = frozenset(["bin", "json", "ron"])
FIELD_NAMES = """a b c x y z s d o i r t f e v w id msg name value kind key line col out tok cur buf data items list len
proxy state field result error ok_ some_ none_ default skip rename_ label unknown unit bytes first last f0 f1 _a _s _0x __y a_ a__b
snake_case_name camelCase UPPER X Y Z r1 d1 o2 strbuf numbuf identbuf de_bin ser_json deserialize_ron variant_name_
first_field_was_serialized default_value long_field_name_that_goes_on_and_on_and_on_and_does_not_stop_here int64 u8_ String_ Vec_ Option_ chars core_ std_ alloc_ nanoserde_
none NONE null NULL some nan inf nul truex e1 None Some Ok""".split()
VARIANT_NAMES = """A B C D E F G H Unit Tuple Struct Foo Bar Baz Qux First Second Third Red Green Blue North South East West
Ok_ Err_ Some_ None_ Self_ lower camelCase SHOUT X1 X2 X3 Y_1 String Vec Option Box True False Null NONE none Some some null NULL TRUE true_ nan NaN inf Ok Err e E1 None0 Default VeryLongVariantNameThatGoesOnAndOn""".split()
WEIRD = ["", " ", "a b", "a-b", "1", "ключ", "naïve", "日本", "\\\"", "\\\\", "a\\\"b", "{", "}", "[", "]", ",", ":", "//", "/*", "*/", "\\n",
         "\\t", "\\u{7f}", "😀", "null", "true", "None", "Some", "secs", "$ref", "@type", "#", "%", "{}", "{{", "}}", "{0}", "\\\\n", "'", "type", "fn",
         "A", "a", "Aa", "aA", " a", "a ", "A ", " A", "\\ta", "a\\t", "\u3000x", "x\u3000", "\u00a0", "x\u00a0", "  ", "a  ", " x ", "\\nx", "x\\n", "\u200b",
         "e\u0301", "\u00e9", "\u0130", "i\u0307", "\u00df", "ss", "a.b", "a.", ".", "::", "a::b", "=", "a=1", "(a)", "skip", "default"]


# types that are only good for being skipped
ODD = """u8 | fn(u8) -> u8 | fn() | fn(u8, u16) -> (u8,) | fn(x: u8, y: &'static str) | Box<dyn Fn(u8) -> u8 + Send> | Box<dyn FnMut() + Send + Sync> | Box<dyn std::any::Any> |
&'static str | &'static [u8] | &'static mut u8 | std::rc::Rc<std::cell::RefCell<Vec<u8>>> | std::marker::PhantomData<*const u8> | std::marker::PhantomData<(u8,)> |
Box<dyn Iterator<Item = u8>> | std::marker::PhantomData<[u8]> | std::rc::Rc<dyn Fn(&str) -> String> | *mut Vec<*const u8> | [fn(u8, &str) -> bool; 2] |
(fn(), Box<dyn FnOnce(Vec<u8>) -> Option<u8> + 'static>) | Box<(dyn std::any::Any + Send)> | fn(&mut [u8]) -> ! | Box<[u8]> | Box<dyn Assoc<Ty = u8>> |
Box<dyn Fn(&mut u8, &mut [u8]) -> Kn<-1>> | [Kc<'>'>; 1 << 1] | &'static mut [fn() -> !]""".split("|")
ODD = [" ".join(x.split()) for x in ODD]


RAW = "type fn match let if in mod use ref move loop for while impl trait struct enum where async await dyn static const return break continue else box try yield abstract".split()


class T:
    """a field type: its text and what can be done with it"""

    def __init__(self, s, fmts=ALL, default=True, ord=False, nullable=False, opt=False, hasstr=False, depth=1):
        self.s, self.fmts, self.default, self.ord, self.nullable, self.opt, self.depth = s, frozenset(fmts), default, ord, nullable, opt, depth


class Gen:
    def __init__(self, seed, prefix="P"):
        self.r = random.Random(seed)
        self.prefix = prefix
        self.n = 0
        self.mac = None
        self.force = False   # proxies all over
        self.types = []      # usable concrete T of generated types
        self.out = []        # (name, code)
        self.entries = []    # (type text, fmts)
        self.units = []      # texts of independent parts, for bisecting

    # ------------------------------------------------------------ field types
    def leaf(self, fmts, ord=False):
        r = self.r
        while True:
            k = r.random()
            if k < 0.06 and fmts == frozenset(["bin"]):
                return T(r.choice(["u128", "i128"]), ["bin"], ord=True)
            if k < 0.10 and not ord:
                return T("Duration", ord=True)
            if k < 0.13 and not ord:
                return T("SystemTime", default=False, ord=False, nullable=True)
            if k < 0.15 and not ord:
                return T("()", nullable=True, ord=True)
            s = r.choice(LEAVES)
            if k > 0.97:
                return T(r.choice(["Kn<-1>", "Kn<{ 1 - 3 }>", "Kn<7>", "Kn<{ 9 >> 1 }>", "Kc<','>", "Kc<'>'>", "Kc<'\\''>", "Kb<true>", "Kb<{ 1 > 2 }>", "Kb<{ 'a' == '}' }>"]))
            if ord and s in ("f32", "f64"):
                continue
            if s == "String" and r.random() < 0.2:
                s = r.choice(["std::string::String", "::std::string::String", "Text"])
            return T(s, ord=s not in ("f32", "f64"))

    def ty(self, fmts, depth=2, ord=False, params=(), selfty=None, needdef=False):
        """a random type supporting all of fmts"""
        for _ in range(200):
            t = self.ty1(fmts, depth, ord, params, selfty)
            if t and fmts <= t.fmts and (not ord or t.ord) and (not needdef or t.default):
                return t
        return T("u8", ord=True)

    def ty1(self, fmts, depth, ord, params, selfty):
        r = self.r
        sub = lambda **k: self.ty(fmts, depth - 1, params=params, selfty=selfty, **k)
        plain = lambda **k: self.ty(fmts, depth - 1, **k)
        k = r.random()
        if depth <= 0 or k < 0.30:
            return self.leaf(fmts, ord)
        if params and k < 0.55:
            return r.choice(params)
        if self.types and k < 0.62:
            return r.choice(self.types[-25:])
        if ord:
            if k < 0.8:
                a, b = sub(ord=True), sub(ord=True)
                return T("(%s, %s)" % (a.s, b.s), a.fmts & b.fmts, a.default and b.default, True)
            a = sub(ord=True)
            return T(r.choice(["Vec<%s>", "Box<%s>"]) % a.s, a.fmts, True if k < .5 else a.default, True)
        if k < 0.72:
            a = sub()
            if a.nullable and fmts != frozenset(["bin"]):
                return None
            w = r.choice(["Option", "Option", "Option", "std::option::Option", "core::option::Option", "::std::option::Option"])
            return T("%s<%s>" % (w, a.s), a.fmts, True, a.ord, nullable=True, opt=True)
        if k < 0.80:
            a = sub()
            w = r.choice(["Vec", "Vec", "Vec", "std::vec::Vec", "LinkedList"])
            return T("%s<%s>" % (w, a.s), a.fmts, True, a.ord)
        if k < 0.83:
            a = sub()
            return T("Box<%s>" % a.s, a.fmts, a.default, a.ord, nullable=a.nullable)
        if k < 0.87:
            a = sub()
            n = r.choice(["0", "1", "2", "3", "4", "LEN", "{ LEN + 1 }", "2 * LEN", "0x3", "3usize"])
            big = r.random() < 0.05
            return T("[%s; %s]" % (a.s, "40" if big else n), a.fmts, a.default and not big and n in ("0", "1", "2", "3", "4", "LEN", "0x3", "3usize"), a.ord)
        if k < 0.92:
            n = r.choice([2, 2, 3, 4])
            xs = [sub() for _ in range(n)]
            f = fmts
            for x in xs:
                f = f & x.fmts
            return T("(%s%s)" % (", ".join(x.s for x in xs), r.choice(["", ","])), f, all(x.default for x in xs), all(x.ord for x in xs))
        if k < 0.95:
            a = plain(ord=True)
            return T("%s<%s>" % (r.choice(["BTreeSet", "HashSet", "std::collections::BTreeSet"]), a.s), a.fmts, True, False)
        if k < 0.99:
            a = plain(ord=True) if r.random() < 0.4 else T("String", ord=True)
            b = sub()
            return T("%s<%s, %s>" % (r.choice(["BTreeMap", "HashMap", "std::collections::HashMap"]), a.s, b.s), a.fmts & b.fmts, True, False)
        return r.choice([T("<u8 as Assoc>::Ty", ord=True), T("<Vec<u8> as Assoc>::Ty", ord=True), T("<Alias<Vec<u8>> as self::Assoc>::Ty", ord=True), T("Alias<i16>"), T("inner::deeper::Word", ord=True), T("OptAlias", nullable=True)])

    # ------------------------------------------------------------ attributes
    def fname(self, used):
        r = self.r
        while True:
            n = r.choice(FIELD_NAMES)
            if r.random() < 0.3:
                n = r.choice("abcdefghijklmnopqrstuvwxyz") + str(r.randrange(100))
            if r.random() < 0.04:
                n = r.choice(RAW)
            if n not in used and n not in ("_",):
                used.add(n)
                return "r#" + n if n in RAW else n

    def comment(self):
        r = self.r
        return r.choice(["", "", "", "", "", "/// Docs, with \"quotes\" and {braces}, #[nserde(skip)] and so on.\n", "#[allow(dead_code)]\n",
                         "/** block docs */\n", "#[doc = \"attr docs\"]\n", "// plain comment\n", "#[cfg(all())]\n", "#[allow(unused, non_snake_case)]\n"])

    def literal_default(self, t, name):
        """(attribute text, value expression) for a default given as a literal or expression"""
        r = self.r
        s = t.s
        o = False
        for p in ("Option<", "std::option::Option<", "core::option::Option<", "::std::option::Option<"):
            if s.startswith(p):
                s, o = s[len(p):-1], True
                break
        wrap = (lambda e: "Some(%s)" % e) if o else (lambda e: e)
        if s in ("u8", "u16", "u32", "u64", "usize"):
            v = r.choice(["5", "0", "255", "0x1f", "1_0"])
            return ("default = %s" % v if r.random() < .6 else 'default = "%s"' % v), wrap(v)
        if s in ("i8", "i16", "i32", "i64"):
            v = r.choice(["5", "-5", "-128", "1 + 2", "LENI" if s == "i8" else "7"])
            bare = v in ("5", "-5", "-128", "LENI") and r.random() < 0.6
            return ("default = %s" if bare else 'default = "%s"') % v, wrap(v)
        if s in ("f32", "f64"):
            v = r.choice(["1.5", "-0.25", "1e10"])
            return ("default = %s" if r.random() < 0.5 else 'default = "%s"') % v, wrap(v)
        if s == "bool":
            return r.choice(['default = "true"', "default = true", 'default = r"true"', 'default = "\\"a\\" != \'b\'.to_string()"', 'default = r#""a" != "b""#']), wrap("true")
        if s in ("String", "std::string::String", "::std::string::String"):
            v = r.choice(["hi", "", "a b", "é😀", "a\\\"b", "a\\\\b", "x\\ny", "{}", "{{", "//"])
            return 'default = ' + self.text(v), wrap("String::from(\"%s\")" % v)
        if s in ("Vec<String>", "std::vec::Vec<String>"):
            v = r.choice(["a b", "é", "a\\\"b", "\\\\", "\\n", "{}", "\\u{41}"])
            e = 'vec![String::from("%s")]' % v
            return "default = " + self.text(e.replace("\\", "\\\\").replace('"', "\\\"")), wrap(e)
        return None

    def text(self, v):
        """a string literal for the text written v between quotes; sometimes a raw one"""
        plain = v.replace("\\\\", "\0").replace('\\"', '"')
        if "\\" in plain or self.r.random() < 0.5:
            return '"%s"' % v
        plain = plain.replace("\0", "\\")
        if '"' in plain or self.r.random() < 0.5:
            return 'r#"%s"#' % plain
        return 'r"%s"' % plain

    def field(self, kind, fmts, used, jsons, rons, params, selfty, in_enum, aux, struct_null, cdefault, gen):
        """one field: dict(name, ty, attrs, def)"""
        r = self.r
        self.curf = fmts
        name = self.fname(used) if kind == "Named" else None
        t = self.ty(fmts, 2, params=params, selfty=selfty, needdef=cdefault)
        if self.force and r.random() < 0.5:
            while t.nullable:
                t = self.ty(fmts, 1)
            t = T("Option<%s>" % t.s, t.fmts, True, t.ord, nullable=True, opt=True)
        attrs = []
        json = ron = (name or "").replace("r#", "")
        skip = False
        dflt = "Dflt::None"
        null_none = struct_null and t.opt
        if kind == "Named":
            if r.random() < 0.18:
                for _ in range(10):
                    if "ron" in fmts:
                        c = r.choice(FIELD_NAMES + ["Renamed", "ключ_", "é1", "Q9", "type", "fn", "match", "self", "crate", "None", "Some", "true_"])
                    else:
                        c = r.choice(WEIRD + FIELD_NAMES)
                    if c not in jsons and c not in rons and c not in used:
                        attrs.append("rename = " + self.text(c))
                        json = ron = c
                        used.add(c)
                        break
            if r.random() < 0.22 and ({"json", "ron"} & fmts):
                k = r.random()
                if k < 0.3 and t.default and not (gen and "T" in t.s):
                    attrs.append("default")
                    dflt = "Dflt::TypeDefault"
                elif k < 0.65:
                    l = self.literal_default(t, name)
                    if l:
                        attrs.append(l[0])
                        dflt = "Dflt::Value(|| { let x: %s = %s; x.to_val() })" % (t.s, l[1])
                elif not gen and not t.opt and not re.search(r"\b%s\d" % self.prefix, t.s):
                    fn = "dflt_%d_%d" % (self.n, len(aux))
                    aux.append("fn %s() -> %s { <%s as Subject>::from_val(&vcore::gen::sample::<%s>(%d)) }" % (fn, t.s, t.s, t.s, r.randrange(1 << 30)))
                    attrs.append('default_with = "%s"' % r.choice([fn, "self::" + fn]))
                    dflt = "Dflt::Value(|| %s().to_val())" % fn
        if r.random() < (0.35 if kind == "Tuple" and not in_enum else 0.08) and t.default and not (gen and "T" in t.s) and not (in_enum and kind == "Tuple") \
                and not (kind == "Tuple" and "json" in fmts):
            skip = True
            attrs.append("skip")
            if kind == "Named" and not in_enum and not attrs[:-1] and r.random() < 0.3:
                t = T("Odd<%s>" % r.choice(ODD), ALL, True)
            elif gen and params and kind == "Named" and not in_enum and not attrs[:-1] and r.random() < 0.5:
                t = T("Odd<std::marker::PhantomData<%s>>" % params[0].s, ALL, True)
        if t.opt and kind == "Named" and "json" in fmts and r.random() < 0.2:
            attrs.append("serialize_none_as_null")
            null_none = True
        opt = t.opt and "<" in t.s
        if not skip and all(a.startswith("rename") or a == "serialize_none_as_null" for a in attrs) and "ron" not in fmts and not gen \
                and not (kind == "Tuple" and "json" in fmts) and not (in_enum and (kind == "Tuple" or "bin" in fmts)) \
                and not (t.opt and (not opt or "bin" in fmts)) and r.random() < (0.7 if self.force else 0.4 if opt else 0.15):
            wrap = "%s"
            if opt:
                wrap, inner = re.match(r"(.*?<)(.*)>$", t.s).groups()
                wrap += "%s>"
                t = T(inner, t.fmts, False)
            w = "W%s%d_%d" % (self.prefix, self.n, len(aux))
            aux.append("")
            px = "X%s%d_%d" % (self.prefix, self.n, len(aux))
            der = self.derives(fmts)
            aux[-1] = """%(der)s pub struct %(px)s { pub inner: %(t)s, pub more: bool }
%(impl)s
pub struct %(w)s(pub Val);
impl Default for %(w)s { fn default() -> Self { %(w)s(vcore::gen::sample::<%(px)s>(%(n)d)) } }
impl Subject for %(w)s { const TY: TyRef = <%(px)s as Subject>::TY; fn from_val(v: &Val) -> Self { %(w)s(v.clone()) } fn to_val(&self) -> Val { self.0.clone() } }
impl From<&%(w)s> for %(px)s { fn from(x: &%(w)s) -> Self { Subject::from_val(&x.0) } }
impl From<&%(px)s> for %(w)s { fn from(x: &%(px)s) -> Self { %(w)s(x.to_val()) } }""" % dict(
                w=w, px=px, t=t.s, der=der, n=r.randrange(1 << 30),
                impl=self.impl_struct(px, "", "", "", "Named", False, False,
                                      [self.fdef_dict("inner", t), self.fdef_dict("more", T("bool"))]))
            attrs.append('proxy = "%s"' % px)
            t = T(wrap % w, t.fmts, True, False, opt=opt, nullable=opt)
            k = r.random()
            if kind == "Named" and "json" in fmts and k < 0.15:
                attrs.append("default")
                dflt = "Dflt::TypeDefault"
            elif kind == "Named" and "json" in fmts and k < 0.3:
                fn = "dflt_%d_%d" % (self.n, len(aux))
                aux.append("fn %s() -> %s { <%s as Subject>::from_val(&vcore::gen::sample::<%s>(%d)) }" % (fn, t.s, t.s, t.s, r.randrange(1 << 30)))
                attrs.append('default_with = "%s"' % fn)
                dflt = "Dflt::Value(|| %s().to_val())" % fn
        jsons.add(json)
        rons.add(ron)
        return dict(name=name, t=t, attrs=attrs, json=json, ron=ron, skip=skip, dflt=dflt, null=null_none,
                    vis=r.choice(["", "pub ", "pub ", "pub(crate) ", "pub(super) "]) if not in_enum else "")

    def fdef_dict(self, name, t):
        return dict(name=name, t=t, attrs=[], json=(name or "").replace("r#", ""), ron=(name or "").replace("r#", ""), skip=False, dflt="Dflt::None", null=False, vis="pub ")

    def attrtext(self, attrs):
        r = self.r
        if not attrs:
            return self.comment()
        c = self.comment()
        attrs = attrs[:]
        r.shuffle(attrs)
        if self.mac is not None:
            for i, x in enumerate(attrs):
                if " = " in x and r.random() < 0.4:
                    k, v = x.split(" = ", 1)
                    attrs[i] = "%s = %s" % (k, self.arg(r.choice(["literal", "expr"]) if v != "LENI" else "expr", v))
        if len(attrs) > 1 and r.random() < 0.5:
            a = "".join("%s\n%s" % (self.attr(x), self.comment()) for x in attrs)
        else:
            a = self.attr("%s%s" % (", ".join(attrs), r.choice(["", "", "", ","]))) + "\n"
        return c + a + self.comment()

    def attr(self, x):
        x = "nserde(%s)" % x
        if self.mac is not None and "$" not in x and self.r.random() < 0.3:
            x = self.arg("meta", x)
        return "#[%s]" % x

    # a definition may be written by a macro, which is given parts of it
    def begin(self):
        self.mac = [] if self.r.random() < 0.12 else None

    def arg(self, kind, text):
        self.mac.append((kind, text))
        return "$a%d" % (len(self.mac) - 1)

    def tystr(self, t):
        return self.arg("ty", t) if self.mac is not None and self.r.random() < 0.6 else t

    def vis(self):
        if self.mac is None:
            return self.r.choice(["pub"] * 9 + ["pub(crate)", "pub(in crate)"])
        return self.arg("vis", self.r.choice(["pub", "pub", "pub(crate)", ""]))

    def end(self, n, code):
        mac, self.mac = self.mac, None
        if mac is None:
            return code
        return "macro_rules! mk_%s { (%s) => {\n%s} }\nmk_%s!(%s);\n" % (
            n, " ".join("$a%d:%s," % (i, k) for i, (k, _) in enumerate(mac)), code, n, " ".join("%s," % v for _, v in mac))

    def derives(self, fmts, more=()):
        r = self.r
        d = []
        for f, (a, b) in dict(bin=("SerBin", "DeBin"), json=("SerJson", "DeJson"), ron=("SerRon", "DeRon")).items():
            if f in fmts:
                d += [a, b]
        d += list(more)
        r.shuffle(d)
        if r.random() < 0.15:
            d = [("nanoserde::" + x if x[:3] == "Ser" or x[:2] == "De" and x != "Default" else x) for x in d]
        if r.random() < 0.2:
            k = r.randrange(1, len(d))
            return "#[derive(%s)]\n#[derive(%s)]\n" % (", ".join(d[:k]), ", ".join(d[k:]))
        return "#[derive(%s)]\n" % ", ".join(d)

    # ------------------------------------------------------------ code
    def fielddef(self, f):
        td = "Some(|| <%s as Default>::default().to_val())" % f["t"].s if f["t"].default else "None"
        n = f["name"] or ""
        q = lambda s: '"%s"' % s
        return 'FieldDef { name: "%s", json: %s, ron: %s, ty: <%s as Subject>::ty, skip: %s, dflt: %s, is_opt: %s, null_none: %s, type_default: %s }' % (
            n, q(f["json"]), q(f["ron"]), f["t"].s, str(f["skip"]).lower(), f["dflt"], str(f["t"].opt).lower(), str(f["null"]).lower(), td)

    def impl_struct(self, name, ig, tg, wh, kind, transparent, cdefault, fields):
        if kind == "Named":
            mk = "%s { %s }" % (name, ", ".join("%s: Subject::from_val(&x[%d])" % (f["name"], i) for i, f in enumerate(fields)))
            to = ", ".join("self.%s.to_val()" % f["name"] for f in fields)
        elif kind == "Tuple":
            mk = "%s(%s)" % (name, ", ".join("Subject::from_val(&x[%d])" % i for i, f in enumerate(fields)))
            to = ", ".join("self.%d.to_val()" % i for i, f in enumerate(fields))
        else:
            mk, to = name + " {}", ""
        return """impl%s Subject for %s%s %s {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "%s", kind: Kind::%s, transparent: %s, container_default: %s, fields: &[
        %s] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); %s }
    fn to_val(&self) -> Val { Val::Rec(vec![%s]) }
}""" % (ig, name, tg, wh, name, kind, str(transparent).lower(), str(cdefault).lower(), ",\n        ".join(self.fielddef(f) for f in fields), mk, to)

    def one(self):
        r = self.r
        self.n += 1
        n = "%s%d" % (self.prefix, self.n)
        k = r.random()
        fmts = ALL if k < 0.62 else frozenset(r.choice([["json"], ["json"], ["bin"], ["ron"], ["bin", "json"], ["bin", "ron"], ["json", "ron"]]))
        self.force = False
        if r.random() < 0.06:
            self.force = True
            fmts = frozenset(["json"])
            return self.enum(n, fmts) if r.random() < 0.5 else self.struct(n, fmts, kind="Named")
        k = r.random()
        if k < 0.06:
            return self.container_proxy(n, frozenset(fmts - {"ron"}) or frozenset(["json"]))
        if k < 0.42:
            return self.enum(n, fmts)
        return self.struct(n, fmts)

    def generics(self, fmts):
        """(declaration, declaration where, impl generics, type generics, params, instantiations)"""
        r = self.r
        if r.random() > 0.22:
            return None
        names = r.sample(["T", "U", "K", "Item", "A1"], r.choice([1, 1, 2]))
        decl, wh, ig, tg, params = [], [], [], [], []
        for p in names:
            b = r.choice(["", "", "Clone", "Clone + PartialEq", "core::fmt::Debug", "Ord", "Marker", "MySerJson", "SerJsonX + Clone", "DeRonLike + MySerJson", "self::WithDeBin", "Known<Ty = u8>", "Marker + Known<Ty = u8>"])
            w = r.choice(["", "", "", "Clone", "Marker", "Clone + Marker", "DeJsonOwned", "SerBinary + Clone", "DeRonLike"])
            decl.append(p + (": " + b if b else ""))
            if w:
                wh.append("%s: %s" % (p, w))
                if r.random() < 0.3:
                    wh.append("%s: %s" % (p, r.choice(["Marker", "Known<Ty = u8>", "'static", "Known<Ty = u8> + 'static"])))
            c = ""
            if r.random() < 0.3:
                # a bound on a type made of the parameter: the impl has to repeat it
                c = "Clone"
                made = r.sample(["Vec<%s>: Clone", "Option<%s>: Clone", "[%s; 2]: Clone", "(%s, u8): Clone", "Box<%s>: Clone + Sized", "std::collections::BTreeMap<u8, Vec<%s>>: Clone"], r.choice([1, 1, 2]))
                if r.random() < 0.25:
                    made.append(made[0])
                wh.extend(m % p for m in made)
            bb = " + ".join(x for x in [b, w, c, "Subject"] if x)
            ig.append("%s: %s" % (p, bb))
            tg.append(p)
            params.append(T(p, fmts, False, "Ord" in b, nullable=False))
        const = r.random() < 0.35
        tail = ""
        if const:
            tail = " = 2" if r.random() < 0.3 else ""
            decl.append("const N: usize" + tail)
            ig.append("const N: usize")
            tg.append("N")
            params.append(T("[u8; N]", ALL, False, True))
            params.append(T("[%s; N]" % names[0], fmts, False, False))
        elif r.random() < 0.2:
            tail = " = u8"
            decl[-1] += tail
        more = []
        if r.random() < 0.2:
            # a parameter that only tells the types apart
            t, d, v = r.choice([("i32", ["-1", "5", "{ 2 - 3 }", "-0x10"], "-7"), ("char", ["'x'", "'>'", "','", "'\\''"], "'y'"), ("bool", ["true", "{ 1 < 2 }"], "false"), ("u8", ["b'x'", "3u8", "{ u8::MAX }"], "{ 1 + 1 }")])
            decl.append("const Q: %s" % t + (" = " + r.choice(d) if tail or r.random() < 0.6 else ""))
            ig.append("const Q: %s" % t)
            tg.append("Q")
            more = [v] + d
        insts = []
        for _ in range(2):
            a = []
            for p in names:
                a.append(r.choice(["u8", "String", "i32", "(u8, String)", "Vec<u16>", "bool", "Vec<String>"]))
            if const:
                a.append(str(r.choice([0, 1, 3])))
            if more:
                a.append(r.choice(more))
            insts.append("<%s>" % ", ".join(a))
        use_where = ""
        if wh:
            use_where = "where " + ", ".join(wh) + r.choice(["", ","])
        return "<%s>" % ", ".join(decl), use_where, "<%s>" % ", ".join(ig), "<%s>" % ", ".join(tg), params, insts, names

    def big(self):
        """a type with many members or variants"""
        self.n += 1
        n = "%s%dBig" % (self.prefix, self.n)
        k = self.r.random()
        if k < 0.4:
            self.enum(n, ALL, self.r.choice([260, 300, 520]))
        elif k < 0.7:
            self.struct(n, ALL, self.r.choice([40, 70, 130]), "Named")
        else:
            self.struct(n, self.r.choice([ALL, ALL, frozenset(["bin"])]), self.r.choice([17, 33, 70]), "Tuple")

    def struct(self, n, fmts, many=None, kind=None):
        r = self.r
        kind = kind or r.choices(["Named", "Tuple", "Unit"], [68, 27, 5])[0]
        g = self.generics(fmts) if kind != "Unit" and not many else None
        params = g[4] if g else []
        recursive = kind == "Named" and not g and r.random() < 0.12
        aux = []
        cattrs = []
        transparent = cdefault = struct_null = False
        cnt = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8]) if kind == "Named" else r.choice([1, 1, 2, 2, 3, 4, 5])
        cnt = many or cnt
        if kind == "Unit":
            cnt = 0
        if kind == "Named" and r.random() < 0.10 and not g and ({"json", "ron"} & fmts):
            cdefault = True
            cattrs.append("default")
        if kind == "Named" and "json" in fmts and r.random() < 0.10:
            struct_null = True
            cattrs.append("serialize_none_as_null")
        if kind == "Tuple" and r.random() < 0.3 and cnt == 1:
            transparent = True
            cattrs.append("transparent")
        if kind == "Tuple" and r.random() < 0.1 and cnt > 1:
            cattrs.append("transparent")
            transparent = True
        if r.random() < 0.05:
            cattrs.append('crate = "%s"' % r.choice(["nanoserde", "self::reexp", "vcore::reexp", "::nanoserde"]))
        used, jsons, rons = set(), set(), set()
        fields = []
        for _ in range(cnt):
            fields.append(self.field(kind, fmts, used, jsons, rons, params, None, False, aux, struct_null, cdefault, bool(g)))
        if recursive:
            for _ in range(r.choice([1, 1, 2])):
                nm = self.fname(used)
                w = r.choice(["Option<Box<%s>>", "Vec<%s>", "BTreeMap<String, %s>", "Box<Option<%s>>", "Option<Vec<%s>>"])
                t = T(w % n, fmts, True, False, nullable=True, opt=w.startswith("Option"))
                f = self.fdef_dict(nm, t)
                f["null"] = struct_null and t.opt
                f["json"] = f["ron"] = nm.replace("r#", "")
                fields.insert(r.randrange(len(fields) + 1), f)
        if g:
            # every parameter has to be used
            text = " ".join(f["t"].s for f in fields)
            for p in g[6] + (["N"] if "const N" in g[0] else []):
                if p != "N" and not re.search(r"\b%s\b" % p, text):
                    f = self.fdef_dict(self.fname(used) if kind == "Named" else None, T(r.choice(["%s", "Vec<%s>", "Box<%s>"]) % p, fmts, False))
                    f["json"] = f["ron"] = (f["name"] or "").replace("r#", "")
                    fields.append(f)
            if kind == "Tuple" and transparent and len(fields) == 1 and False:
                pass
        alldef = all(f["t"].default for f in fields)
        lossy = lambda f: f["skip"] or f["dflt"].startswith("Dflt::Value")
        allord = all(f["t"].ord and not lossy(f) for f in fields) and not recursive
        more = []
        isdef = alldef and not g and r.random() < 0.6
        if isdef:
            more.append("Default")
        isord = allord and not g and fields and r.random() < 0.6
        if isord:
            more += ["PartialEq", "Eq", "PartialOrd", "Ord", "Hash"]
        self.begin()
        ct = self.attrtext(cattrs)
        der = self.derives(fmts, more)
        head = "%s%s" % ((ct, der) if r.random() < 0.3 and not cattrs and "cfg(" not in ct else (der, ct))
        gd, wh = (g[0], g[1]) if g else ("", "")
        tc = r.choice([",", ""])
        if kind == "Named":
            body = ",\n".join("    %s%s%s: %s" % (self.attrtext(f["attrs"]), f["vis"], f["name"], self.tystr(f["t"].s)) for f in fields)
            code = "%s%s struct %s%s %s {\n%s%s\n}\n" % (head, self.vis(), n, gd, wh, body, tc if fields else "")
        elif kind == "Tuple":
            body = ", ".join("%s%s%s" % (self.attrtext(f["attrs"]), f["vis"], self.tystr(f["t"].s)) for f in fields)
            code = "%s%s struct %s%s(%s%s) %s;\n" % (head, self.vis(), n, gd, body, tc if fields else "", wh)
        else:
            code = "%s%s struct %s%s\n" % (head, self.vis(), n, r.choice([";", "();"]))
        code = self.end(n, code)
        ig, tg = (g[2], g[3]) if g else ("", "")
        code += self.impl_struct(n, ig, tg, "", kind, transparent, cdefault, fields) + "\n"
        code += "\n".join(aux) + "\n"
        nullable = transparent and len(fields) == 1 and fields[0]["t"].nullable
        more = []
        if not g and kind != "Unit" and self.lendable(fields):
            code += self.lent(n, "struct", fmts, cattrs, [dict(kind=kind, name="", attrs=[], fields=fields)])
            more.append(n + "View")
        self.done(n, g, fmts, code, isdef, isord, nullable, more)

    def enum(self, n, fmts, many=None):
        r = self.r
        plain = r.random() < 0.25 and not many
        g = self.generics(fmts) if not plain and not many else None
        params = g[4] if g else []
        aux = []
        cattrs = []
        if r.random() < 0.05:
            cattrs.append('crate = "%s"' % r.choice(["nanoserde", "self::reexp", "vcore::reexp"]))
        cnt = r.choice([1, 2, 2, 3, 3, 4, 5, 7, 12])
        names = r.sample(VARIANT_NAMES, cnt)
        if many:
            names = ["V%d" % i for i in range(many)]
            r.shuffle(names)
        names = ["r#" + r.choice(RAW) + "_"[:r.randrange(2)] if r.random() < 0.03 and not many else n for n in names]
        names = list(dict.fromkeys(n[:-1] if n.endswith("_") and n.startswith("r#") else n for n in names))
        cnt = len(names)
        jn = set(n.replace("r#", "") for n in names)
        vs = []
        recursive = not plain and not g and cnt > 1 and r.random() < 0.2
        for vi, vn in enumerate(names):
            kind = "Unit" if plain else r.choices(["Unit", "Tuple", "Named"], [35, 35, 30] if not many else [80, 10, 10])[0]
            if recursive and vi == 0:
                kind = "Unit"
            va, js = [], vn.replace("r#", "")
            if r.random() < 0.15:
                for _ in range(10):
                    c = r.choice(WEIRD + VARIANT_NAMES)
                    if c not in jn:
                        jn.add(c)
                        js = c
                        va.append("rename = " + self.text(c))
                        break
            used, jsons, rons = set(), set(), set()
            fields = []
            if kind == "Tuple":
                for _ in range(r.choice([0, 1, 1, 1, 2, 2, 2, 3, 5])):
                    f = self.field("Tuple", fmts, used, jsons, rons, params, None, True, aux, False, False, bool(g))
                    fields.append(f)
            elif kind == "Named":
                for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
                    fields.append(self.field("Named", fmts, used, jsons, rons, params, None, True, aux, False, False, bool(g)))
            if recursive and vi > 0 and kind != "Unit":
                w = r.choice(["Box<%s>", "Vec<%s>", "Option<Box<%s>>", "(u8, Box<%s>)"])
                t = T(w % n, fmts, False, False, nullable=False, opt=w.startswith("Option"))
                f = self.fdef_dict(self.fname(used) if kind == "Named" else None, t)
                f["json"] = f["ron"] = (f["name"] or "").replace("r#", "")
                f["vis"] = ""
                fields.append(f)
            vs.append(dict(name=vn, json=js, kind=kind, fields=fields, attrs=va, disc=""))
        if g:
            text = " ".join(f["t"].s for v in vs for f in v["fields"])
            for p in g[6]:
                if not re.search(r"\b%s\b" % p, text):
                    vn = "Use" + p
                    f = self.fdef_dict(None, T("Vec<%s>" % p, fmts, False))
                    f["json"] = f["ron"] = ""
                    f["vis"] = ""
                    vs.append(dict(name=vn, json=vn, kind="Tuple", fields=[f], attrs=[], disc=""))
        allunit = all(v["kind"] == "Unit" for v in vs)
        if allunit and r.random() < 0.5:
            d = -1
            for i, v in enumerate(vs):
                d += 1
                if r.random() < 0.5:
                    d += r.choice([0, 0, 1, 5, -3, 100]) if i == 0 else r.randrange(0, 9)
                    v["disc"] = " = " + (r.choice(["%d", "%d", "%d + 0", "0 + %d", "(%d)"]) % d)
        isdef = not g and r.random() < 0.5 and vs[0]["kind"] == "Unit"
        isord = not g and not recursive and all(f["t"].ord and not f["skip"] and not f["dflt"].startswith("Dflt::Value") for v in vs for f in v["fields"]) and r.random() < 0.6
        more = (["Default"] if isdef else []) + (["PartialEq", "Eq", "PartialOrd", "Ord", "Hash"] if isord else [])
        self.begin()
        head = "%s%s" % (self.derives(fmts, more), self.attrtext(cattrs))
        gd, wh = (g[0], g[1]) if g else ("", "")
        lines = []
        for i, v in enumerate(vs):
            a = self.attrtext(v["attrs"]) + ("#[default]\n" if isdef and i == 0 else "")
            if v["kind"] == "Unit":
                b = v["disc"]
                if self.mac is not None and b and r.random() < 0.5:
                    b = " = " + self.arg("expr", b[3:])
            elif v["kind"] == "Tuple":
                b = "(%s%s)" % (", ".join((self.comment() if r.random() < 0.3 else "") + self.tystr(f["t"].s) for f in v["fields"]), r.choice(["", "", ","]) if v["fields"] else "")
            else:
                b = " {\n%s%s\n}" % (",\n".join("%s%s: %s" % (self.attrtext(f["attrs"]), f["name"], self.tystr(f["t"].s)) for f in v["fields"]),
                                       r.choice(["", ","]) if v["fields"] else "")
            lines.append("    %s%s%s" % (a, v["name"], b))
        code = "%s#[allow(clippy::all)] %s enum %s%s %s {\n%s%s\n}\n" % (head, self.vis(), n, gd, wh, ",\n".join(lines), r.choice([",", ""]))
        code = self.end(n, code)
        vds, fv, tv = [], [], []
        for i, v in enumerate(vs):
            vds.append('VariantDef { name: "%s", json: "%s", kind: Kind::%s, fields: &[%s] }' % (
                v["name"].replace("r#", ""), v["json"], v["kind"], ", ".join(self.fielddef(f) for f in v["fields"])))
            ng = len(v["fields"])
            if v["kind"] == "Unit":
                fv.append("%d => Self::%s," % (i, v["name"]))
                tv.append("Self::%s => Val::Enum(%d, vec![])," % (v["name"], i))
            elif v["kind"] == "Tuple":
                fv.append("%d => Self::%s(%s)," % (i, v["name"], ", ".join("Subject::from_val(&x_[%d])" % j for j in range(ng))))
                tv.append("Self::%s(%s) => Val::Enum(%d, vec![%s])," % (v["name"], ", ".join("b%d" % j for j in range(ng)), i, ", ".join("b%d.to_val()" % j for j in range(ng))))
            else:
                fv.append("%d => Self::%s { %s }," % (i, v["name"], ", ".join("%s: Subject::from_val(&x_[%d])" % (f["name"], j) for j, f in enumerate(v["fields"]))))
                tv.append("Self::%s { %s } => Val::Enum(%d, vec![%s])," % (v["name"], ", ".join("%s: b%d" % (f["name"], j) for j, f in enumerate(v["fields"])), i,
                                                                             ", ".join("b%d.to_val()" % j for j in range(ng))))
        ig, tg = (g[2], g[3]) if g else ("", "")
        code += """impl%s Subject for %s%s {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "%s", variants: &[
        %s] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { %s _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { %s } }
}
""" % (ig, n, tg, n, ",\n        ".join(vds), " ".join(fv), " ".join(tv))
        code += "\n".join(aux) + "\n"
        more = []
        if not g and not many and self.lendable([f for v in vs for f in v["fields"]]):
            code += self.lent(n, "enum", fmts, cattrs, vs)
            more.append(n + "View")
        self.done(n, g, fmts, code, isdef, isord, False, more)

    def container_proxy(self, n, fmts):
        """a type that is not derivable itself, written and read as another one"""
        t = self.ty(fmts, 2)
        px = n + "Px"
        der = self.derives(fmts)
        inner = self.impl_struct(px, "", "", "", "Named", False, False, [self.fdef_dict("via", t), self.fdef_dict("flag", T("bool"))])
        kind = self.r.random()
        if kind < 0.5:
            body, mk, get = "{ hidden: Val }", "%s { hidden: v }" % n, "self.hidden.clone()"
        else:
            body, mk, get = "(Val);", "%s(v)" % n, "self.0.clone()"
        gx = "x.%s" % ("hidden" if kind < 0.5 else "0")
        code = """%(der)s pub struct %(px)s { via: %(t)s, flag: bool }
%(inner)s
%(der)s #[nserde(proxy = "%(px)s")]
pub struct %(n)s %(body)s
impl Subject for %(n)s { const TY: TyRef = <%(px)s as Subject>::TY; fn from_val(v: &Val) -> Self { let v = v.clone(); %(mk)s } fn to_val(&self) -> Val { %(get)s } }
impl From<&%(n)s> for %(px)s { fn from(x: &%(n)s) -> Self { Subject::from_val(&%(gx)s) } }
impl From<&%(px)s> for %(n)s { fn from(x: &%(px)s) -> Self { let v = x.to_val(); %(mk)s } }
""" % dict(der=der, px=px, t=t.s, inner=inner, n=n, body=body, mk=mk, get=get, gx=gx)
        self.done(n, None, fmts, code, False, False, False)

    def lendable(self, fields):
        # (a member that is a reference to an Option is not left out when it is None)
        return fields and not any(f["t"].opt and f["name"] for f in fields) and not any("proxy" in a for f in fields for a in f["attrs"]) and self.r.random() < 0.3

    def lent(self, n, what, fmts, cattrs, vs):
        """a type that borrows what n owns, written in its stead: it has to come out the same"""
        r = self.r
        fields = [f for v in vs for f in v["fields"]]
        lts = ["'a"] if len(fields) == 1 or r.random() < 0.6 else ["'a", "'b"]
        decl = [l if l == "'a" else "%s: 'a" % l if r.random() < 0.5 else l for l in lts]
        wh, held, own = [], set(), []
        if r.random() < 0.2:
            wh += r.sample(["%s: 'a" % lts[-1], "'a: %s" % lts[-1], "%s: 'a + %s" % (lts[-1], lts[-1])], r.choice([1, 2]))

        def ty(f):
            l = r.choice(lts) if set(lts) <= held else next(l for l in lts if l not in held)
            held.add(l)
            t = f["t"].s
            # one variant alone would not say what the parameters are
            if what == "struct" and not f["skip"] and not f["t"].opt and r.random() < 0.35:
                p = "F%d" % len(own)
                own.append(p)
                k = r.random()
                decl.append(p + (": " + r.choice([l, "Sized", "Sized + %s" % l, "%s + Marker" % l]) if k < 0.5 else ""))
                if k > 0.7:
                    wh.append("%s: %s" % (p, r.choice([l, "Sized", "Marker + %s" % l])))
                t = p
            return "&%s %s" % (l, t)
        text = []
        for v in vs:
            a = self.attrtext(v["attrs"])
            if v["kind"] == "Named":
                b = " {\n%s\n}" % ",\n".join("%s%s: %s" % (self.attrtext(f["attrs"]), f["name"], ty(f)) for f in v["fields"])
            elif v["kind"] == "Tuple":
                b = "(%s)" % ", ".join("%s%s" % (self.attrtext(f["attrs"]), ty(f)) for f in v["fields"])
            else:
                b = ""
            text.append((a, v["name"], b))
        ser = [x for f, x in (("bin", "SerBin"), ("json", "SerJson"), ("ron", "SerRon")) if f in fmts]
        head = "#[derive(%s)]\n%s" % (", ".join(ser), self.attrtext(cattrs))
        g = "<%s>" % ", ".join(decl)
        w = "where " + ", ".join(wh) if wh else ""
        if what == "enum":
            code = "%spub enum %sLent%s %s {\n%s\n}\n" % (head, n, g, w, ",\n".join("%s%s%s" % x for x in text))
        elif vs[0]["kind"] == "Named":
            code = "%spub struct %sLent%s %s%s\n" % (head, n, g, w, text[0][2])
        else:
            code = "%spub struct %sLent%s%s %s;\n" % (head, n, g, text[0][2], w)
        arms = []
        for v in vs:
            sep = "::" + v["name"] if what == "enum" else ""
            k = range(len(v["fields"]))
            if v["kind"] == "Named":
                pat = " { %s }" % ", ".join("%s: x%d" % (f["name"], i) for i, f in enumerate(v["fields"]))
            elif v["kind"] == "Tuple":
                pat = "(%s)" % ", ".join("x%d" % i for i in k)
            else:
                pat = ""
            arms.append("%s%s%s => %sLent%s%s.CALL," % (n, sep, pat, n, sep, pat))
        code += "pub struct %sView(%s);\n" % (n, n)
        code += "impl Subject for %sView { const TY: TyRef = <%s as Subject>::TY; fn from_val(v: &Val) -> Self { %sView(Subject::from_val(v)) } fn to_val(&self) -> Val { self.0.to_val() } }\n" % (n, n, n)
        body = lambda call: "match &self.0 { %s }" % " ".join(a.replace("CALL", call) for a in arms)
        if "bin" in fmts:
            code += "impl SerBin for %sView { fn ser_bin(&self, s: &mut Vec<u8>) { %s } }\n" % (n, body("ser_bin(s)"))
            code += "impl DeBin for %sView { fn de_bin(o: &mut usize, d: &[u8]) -> Result<Self, nanoserde::DeBinErr> { Ok(%sView(DeBin::de_bin(o, d)?)) } }\n" % (n, n)
        for f, F in (("json", "Json"), ("ron", "Ron")):
            if f in fmts:
                code += "impl Ser%s for %sView { fn ser_%s(&self, d: usize, s: &mut nanoserde::Ser%sState) { %s } }\n" % (F, n, f, F, body("ser_%s(d, s)" % f))
                code += "impl De%s for %sView { fn de_%s(s: &mut nanoserde::De%sState, i: &mut core::str::Chars) -> Result<Self, nanoserde::De%sErr> { Ok(%sView(De%s::de_%s(s, i)?)) } }\n" % (F, n, f, F, F, n, F, f)
        return code

    def done(self, n, g, fmts, code, isdef, isord, nullable, more=()):
        insts = [n] if not g else [n + i for i in g[5]]
        self.units.append((n, code, [(i, fmts) for i in insts + list(more)]))
        for i in insts:
            self.types.append(T(i, fmts, isdef, isord, nullable=nullable))


HEADER = """// Written by tools/progen.py (seed %s).
#![allow(unused, non_snake_case, non_camel_case_types, non_upper_case_globals, clippy::all)]
use std::collections::*;
use std::time::{Duration, SystemTime};
use vcore::entry;
use vcore::reg::Entry;
use vcore::val::*;
use nanoserde::{SerBin, DeBin, SerJson, DeJson, SerRon, DeRon};
pub mod reexp { pub use nanoserde::*; }
pub mod inner { pub mod deeper { pub type Word = u16; } }
const LEN: usize = 2;
const LENI: i8 = 3;
pub trait Assoc { type Ty; }
impl Assoc for u8 { type Ty = u32; }
impl<X> Assoc for Vec<X> { type Ty = i16; }
pub type Alias<X> = Vec<X>;
pub type Text = String;
pub type OptAlias = Option<u8>;
/// anything, to be skipped
pub struct Odd<X>(std::marker::PhantomData<fn() -> Option<X>>);
impl<X> Default for Odd<X> { fn default() -> Self { Odd(std::marker::PhantomData) } }
impl<X> Clone for Odd<X> { fn clone(&self) -> Self { Odd(std::marker::PhantomData) } }
impl<X: 'static> Subject for Odd<X> { const TY: TyRef = &Ty::Unit; fn from_val(_: &Val) -> Self { Odd(std::marker::PhantomData) } fn to_val(&self) -> Val { Val::Unit } }
pub trait Known { type Ty; }
impl<X> Known for X { type Ty = u8; }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon, Default)] pub struct Kn<const K: i32>(pub u16);
#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon, Default)] pub struct Kc<const K: char> { pub k: u16 }
#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon, Default)] pub struct Kb<const K: bool>(pub u8, pub bool);
KSUBJ
pub trait Marker {}
impl<X> Marker for X {}
pub trait MySerJson {}
impl<X> MySerJson for X {}
pub trait SerJsonX {}
impl<X> SerJsonX for X {}
pub trait WithDeBin {}
impl<X> WithDeBin for X {}
pub trait DeJsonOwned {}
impl<X> DeJsonOwned for X {}
pub trait SerBinary {}
impl<X> SerBinary for X {}
pub trait DeRonLike {}
impl<X> DeRonLike for X {}
"""
_k = Gen(0)
HEADER = HEADER.replace("KSUBJ", "\n".join([
    _k.impl_struct("Kn", "<const K: i32>", "<K>", "", "Tuple", False, False, [_k.fdef_dict(None, T("u16"))]),
    _k.impl_struct("Kc", "<const K: char>", "<K>", "", "Named", False, False, [_k.fdef_dict("k", T("u16"))]),
    _k.impl_struct("Kb", "<const K: bool>", "<K>", "", "Tuple", False, False, [_k.fdef_dict(None, T("u8")), _k.fdef_dict(None, T("bool"))]),
]).replace("%", "%%"))


def module(seed, units):
    s = HEADER % seed
    for n, code, _ in units:
        s += "\n" + code
    s += "\npub fn reg() -> Vec<Entry> {\n    vec![\n"
    for _, _, es in units:
        for t, f in es:
            s += "        entry!(%s; %s),\n" % (t, " ".join(sorted(f)))
    s += "    ]\n}\n"
    return s


def generate(seed, count, prefix="P"):
    g = Gen(seed, prefix)
    for i in range(count):
        g.one()
        if i % 50 == 49:
            g.big()
    return g


if __name__ == "__main__":
    seed, count = int(sys.argv[1]), int(sys.argv[2])
    g = generate(seed, count, sys.argv[3] if len(sys.argv) > 3 else "P")
    sys.stdout.write(module(seed, g.units))
