// Written by tools/handgen.py
#![allow(unused, non_snake_case, non_camel_case_types, clippy::all)]
use nanoserde::{DeBin, DeJson, DeRon, SerBin, SerJson, SerRon};
use std::collections::*;
use std::hash::{BuildHasherDefault, DefaultHasher};
use std::time::{Duration, SystemTime};
use vcore::entry;
use vcore::reg::Entry;
use vcore::track::Tracked;
use vcore::val::*;
type Other = BuildHasherDefault<DefaultHasher>;

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct TrackedNamed {
     pub a: Tracked,
     pub b: [Tracked; 3],
     pub c: Option<Tracked>,
     pub d: Vec<[Tracked; 2]>,
     pub e: (Tracked, Tracked),
     pub f: Box<Tracked>,
     pub g: BTreeMap<String, Tracked>,
     pub z: Tracked,
}
impl Subject for TrackedNamed  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "TrackedNamed", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "a", json: "a", ron: "a", ty: <Tracked as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "b", json: "b", ron: "b", ty: <[Tracked; 3] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "c", json: "c", ron: "c", ty: <Option<Tracked> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None },
        FieldDef { name: "d", json: "d", ron: "d", ty: <Vec<[Tracked; 2]> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "e", json: "e", ron: "e", ty: <(Tracked, Tracked) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "f", json: "f", ron: "f", ty: <Box<Tracked> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "g", json: "g", ron: "g", ty: <BTreeMap<String, Tracked> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "z", json: "z", ron: "z", ty: <Tracked as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); TrackedNamed { a: Subject::from_val(&x[0]), b: Subject::from_val(&x[1]), c: Subject::from_val(&x[2]), d: Subject::from_val(&x[3]), e: Subject::from_val(&x[4]), f: Subject::from_val(&x[5]), g: Subject::from_val(&x[6]), z: Subject::from_val(&x[7]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val(), self.e.to_val(), self.f.to_val(), self.g.to_val(), self.z.to_val()]) }
}

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct TrackedTuple( pub Tracked,  pub [Tracked; 3],  pub (Tracked, [Tracked; 2], u8),  pub Tracked);
impl Subject for TrackedTuple  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "TrackedTuple", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <Tracked as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "", json: "", ron: "", ty: <[Tracked; 3] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "", json: "", ron: "", ty: <(Tracked, [Tracked; 2], u8) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "", json: "", ron: "", ty: <Tracked as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); TrackedTuple(Subject::from_val(&x[0]), Subject::from_val(&x[1]), Subject::from_val(&x[2]), Subject::from_val(&x[3])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val(), self.1.to_val(), self.2.to_val(), self.3.to_val()]) }
}

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum TrackedEnum {
    A(Tracked),
    B([Tracked; 3], Tracked),
    C((Tracked, [Tracked; 2], u8), [Tracked; 2]),
    D(TrackedNamed),
    E { a: Tracked, b: [Tracked; 3], c: Vec<Tracked> },
    F,
}
impl Subject for TrackedEnum {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "TrackedEnum", variants: &[VariantDef { name: "A", json: "A", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <Tracked as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "B", json: "B", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <[Tracked; 3] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "", json: "", ron: "", ty: <Tracked as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "C", json: "C", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <(Tracked, [Tracked; 2], u8) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "", json: "", ron: "", ty: <[Tracked; 2] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "D", json: "D", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <TrackedNamed as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "E", json: "E", kind: Kind::Named, fields: &[FieldDef { name: "a", json: "a", ron: "a", ty: <Tracked as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "b", json: "b", ron: "b", ty: <[Tracked; 3] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "c", json: "c", ron: "c", ty: <Vec<Tracked> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "F", json: "F", kind: Kind::Unit, fields: &[] }] });
    fn from_val(v: &Val) -> Self { let Val::Enum(i_, x_) = v else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::A(Subject::from_val(&x_[0])), 1 => Self::B(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), 2 => Self::C(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), 3 => Self::D(Subject::from_val(&x_[0])), 4 => Self::E { a: Subject::from_val(&x_[0]), b: Subject::from_val(&x_[1]), c: Subject::from_val(&x_[2]) }, 5 => Self::F, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::A(b0) => Val::Enum(0, vec![b0.to_val()]), Self::B(b0, b1) => Val::Enum(1, vec![b0.to_val(), b1.to_val()]), Self::C(b0, b1) => Val::Enum(2, vec![b0.to_val(), b1.to_val()]), Self::D(b0) => Val::Enum(3, vec![b0.to_val()]), Self::E { a: b0, b: b1, c: b2 } => Val::Enum(4, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::F => Val::Enum(5, vec![]), } }
}

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct Maps {
     pub a: HashMap<String, u8>,
     pub b: HashMap<u16, Vec<u8>>,
     pub c: BTreeMap<i32, BTreeMap<String, bool>>,
     pub d: HashMap<String, Option<u8>>,
     pub e: BTreeMap<(u8, String), i8>,
     pub f: BTreeMap<Vec<u8>, String>,
     pub g: HashSet<String>,
     pub h: HashMap<bool, [u8; 2]>,
     pub i: BTreeMap<String, Duration>,
}
impl Subject for Maps  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "Maps", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "a", json: "a", ron: "a", ty: <HashMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "b", json: "b", ron: "b", ty: <HashMap<u16, Vec<u8>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "c", json: "c", ron: "c", ty: <BTreeMap<i32, BTreeMap<String, bool>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "d", json: "d", ron: "d", ty: <HashMap<String, Option<u8>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "e", json: "e", ron: "e", ty: <BTreeMap<(u8, String), i8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "f", json: "f", ron: "f", ty: <BTreeMap<Vec<u8>, String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "g", json: "g", ron: "g", ty: <HashSet<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "h", json: "h", ron: "h", ty: <HashMap<bool, [u8; 2]> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "i", json: "i", ron: "i", ty: <BTreeMap<String, Duration> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); Maps { a: Subject::from_val(&x[0]), b: Subject::from_val(&x[1]), c: Subject::from_val(&x[2]), d: Subject::from_val(&x[3]), e: Subject::from_val(&x[4]), f: Subject::from_val(&x[5]), g: Subject::from_val(&x[6]), h: Subject::from_val(&x[7]), i: Subject::from_val(&x[8]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val(), self.e.to_val(), self.f.to_val(), self.g.to_val(), self.h.to_val(), self.i.to_val()]) }
}

#[derive(SerJson, DeJson)]
pub struct OtherHashed {
     pub a: HashMap<String, u8, Other>,
     pub b: Vec<HashMap<String, Tree, Other>>,
}
impl Subject for OtherHashed  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "OtherHashed", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "a", json: "a", ron: "a", ty: <HashMap<String, u8, Other> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "b", json: "b", ron: "b", ty: <Vec<HashMap<String, Tree, Other>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); OtherHashed { a: Subject::from_val(&x[0]), b: Subject::from_val(&x[1]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.a.to_val(), self.b.to_val()]) }
}

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct Everything {
     pub a: bool,
     pub b: u8,
     pub c: u16,
     pub d: u32,
     pub e: u64,
     pub f: usize,
     pub g: i8,
     pub h: i16,
     pub i: i32,
     pub j: i64,
     pub k: f32,
     pub l: f64,
     pub m: String,
     pub n: (),
     pub o: Duration,
     pub p: SystemTime,
     pub q: Option<Box<u8>>,
     pub r: Vec<u8>,
     pub s: LinkedList<String>,
     pub t: HashSet<u32>,
     pub u: BTreeSet<i64>,
     pub v: [u16; 3],
     pub w: (u8, u16),
     pub x: (u8, u16, f32),
     pub y: (u8, u16, f32, String),
     pub z: Maps,
}
impl Subject for Everything  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "Everything", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "a", json: "a", ron: "a", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "b", json: "b", ron: "b", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "c", json: "c", ron: "c", ty: <u16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "d", json: "d", ron: "d", ty: <u32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "e", json: "e", ron: "e", ty: <u64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "f", json: "f", ron: "f", ty: <usize as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "g", json: "g", ron: "g", ty: <i8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "h", json: "h", ron: "h", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "i", json: "i", ron: "i", ty: <i32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "j", json: "j", ron: "j", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "k", json: "k", ron: "k", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "l", json: "l", ron: "l", ty: <f64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "m", json: "m", ron: "m", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "n", json: "n", ron: "n", ty: <() as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "o", json: "o", ron: "o", ty: <Duration as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "p", json: "p", ron: "p", ty: <SystemTime as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "q", json: "q", ron: "q", ty: <Option<Box<u8>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None },
        FieldDef { name: "r", json: "r", ron: "r", ty: <Vec<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "s", json: "s", ron: "s", ty: <LinkedList<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "t", json: "t", ron: "t", ty: <HashSet<u32> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "u", json: "u", ron: "u", ty: <BTreeSet<i64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "v", json: "v", ron: "v", ty: <[u16; 3] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "w", json: "w", ron: "w", ty: <(u8, u16) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "x", json: "x", ron: "x", ty: <(u8, u16, f32) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "y", json: "y", ron: "y", ty: <(u8, u16, f32, String) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "z", json: "z", ron: "z", ty: <Maps as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); Everything { a: Subject::from_val(&x[0]), b: Subject::from_val(&x[1]), c: Subject::from_val(&x[2]), d: Subject::from_val(&x[3]), e: Subject::from_val(&x[4]), f: Subject::from_val(&x[5]), g: Subject::from_val(&x[6]), h: Subject::from_val(&x[7]), i: Subject::from_val(&x[8]), j: Subject::from_val(&x[9]), k: Subject::from_val(&x[10]), l: Subject::from_val(&x[11]), m: Subject::from_val(&x[12]), n: Subject::from_val(&x[13]), o: Subject::from_val(&x[14]), p: Subject::from_val(&x[15]), q: Subject::from_val(&x[16]), r: Subject::from_val(&x[17]), s: Subject::from_val(&x[18]), t: Subject::from_val(&x[19]), u: Subject::from_val(&x[20]), v: Subject::from_val(&x[21]), w: Subject::from_val(&x[22]), x: Subject::from_val(&x[23]), y: Subject::from_val(&x[24]), z: Subject::from_val(&x[25]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val(), self.e.to_val(), self.f.to_val(), self.g.to_val(), self.h.to_val(), self.i.to_val(), self.j.to_val(), self.k.to_val(), self.l.to_val(), self.m.to_val(), self.n.to_val(), self.o.to_val(), self.p.to_val(), self.q.to_val(), self.r.to_val(), self.s.to_val(), self.t.to_val(), self.u.to_val(), self.v.to_val(), self.w.to_val(), self.x.to_val(), self.y.to_val(), self.z.to_val()]) }
}

#[derive(SerBin, DeBin)]
pub struct WideInts {
     pub a: u128,
     pub b: i128,
     pub c: Vec<u128>,
     pub d: Option<i128>,
     pub e: [u128; 2],
     pub f: Option<Option<u8>>,
     pub g: Option<()>,
}
impl Subject for WideInts  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "WideInts", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "a", json: "a", ron: "a", ty: <u128 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "b", json: "b", ron: "b", ty: <i128 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "c", json: "c", ron: "c", ty: <Vec<u128> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "d", json: "d", ron: "d", ty: <Option<i128> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None },
        FieldDef { name: "e", json: "e", ron: "e", ty: <[u128; 2] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "f", json: "f", ron: "f", ty: <Option<Option<u8>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None },
        FieldDef { name: "g", json: "g", ron: "g", ty: <Option<()> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); WideInts { a: Subject::from_val(&x[0]), b: Subject::from_val(&x[1]), c: Subject::from_val(&x[2]), d: Subject::from_val(&x[3]), e: Subject::from_val(&x[4]), f: Subject::from_val(&x[5]), g: Subject::from_val(&x[6]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val(), self.e.to_val(), self.f.to_val(), self.g.to_val()]) }
}

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct Options {
     pub a: Option<u8>,
     pub b: Option<String>,
     pub c: Option<Vec<u8>>,
     pub d: Option<Box<Options>>,
     pub e: Option<Duration>,
}
impl Subject for Options  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "Options", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "a", json: "a", ron: "a", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None },
        FieldDef { name: "b", json: "b", ron: "b", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None },
        FieldDef { name: "c", json: "c", ron: "c", ty: <Option<Vec<u8>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None },
        FieldDef { name: "d", json: "d", ron: "d", ty: <Option<Box<Options>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None },
        FieldDef { name: "e", json: "e", ron: "e", ty: <Option<Duration> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); Options { a: Subject::from_val(&x[0]), b: Subject::from_val(&x[1]), c: Subject::from_val(&x[2]), d: Subject::from_val(&x[3]), e: Subject::from_val(&x[4]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val(), self.e.to_val()]) }
}

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct OptionsMid {
     pub a: u8,
     pub b: Option<u8>,
     pub c: u8,
     pub d: Option<String>,
}
impl Subject for OptionsMid  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "OptionsMid", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "a", json: "a", ron: "a", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "b", json: "b", ron: "b", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None },
        FieldDef { name: "c", json: "c", ron: "c", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "d", json: "d", ron: "d", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); OptionsMid { a: Subject::from_val(&x[0]), b: Subject::from_val(&x[1]), c: Subject::from_val(&x[2]), d: Subject::from_val(&x[3]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val()]) }
}

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct OptionLast {
     pub a: u8,
     pub b: Option<f64>,
}
impl Subject for OptionLast  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "OptionLast", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "a", json: "a", ron: "a", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "b", json: "b", ron: "b", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); OptionLast { a: Subject::from_val(&x[0]), b: Subject::from_val(&x[1]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.a.to_val(), self.b.to_val()]) }
}

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct OptionFirst {
     pub a: Option<f64>,
     pub b: u8,
}
impl Subject for OptionFirst  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "OptionFirst", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "a", json: "a", ron: "a", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None },
        FieldDef { name: "b", json: "b", ron: "b", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); OptionFirst { a: Subject::from_val(&x[0]), b: Subject::from_val(&x[1]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.a.to_val(), self.b.to_val()]) }
}

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct Tree {
     pub v: i32,
     pub kids: Vec<Tree>,
}
impl Subject for Tree  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "Tree", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "v", json: "v", ron: "v", ty: <i32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "kids", json: "kids", ron: "kids", ty: <Vec<Tree> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); Tree { v: Subject::from_val(&x[0]), kids: Subject::from_val(&x[1]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.v.to_val(), self.kids.to_val()]) }
}

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct Chain {
     pub next: Option<Box<Chain>>,
}
impl Subject for Chain  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "Chain", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "next", json: "next", ron: "next", ty: <Option<Box<Chain>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); Chain { next: Subject::from_val(&x[0]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.next.to_val()]) }
}

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum Expr {
    Nil,
    Num(f64),
    Text(String),
    Neg(Box<Expr>),
    Add(Box<Expr>, Box<Expr>),
    Call { f: String, args: Vec<Expr> },
    Rec(BTreeMap<String, Expr>),
}
impl Subject for Expr {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "Expr", variants: &[VariantDef { name: "Nil", json: "Nil", kind: Kind::Unit, fields: &[] }, VariantDef { name: "Num", json: "Num", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <f64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "Text", json: "Text", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "Neg", json: "Neg", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <Box<Expr> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "Add", json: "Add", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <Box<Expr> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "", json: "", ron: "", ty: <Box<Expr> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "Call", json: "Call", kind: Kind::Named, fields: &[FieldDef { name: "f", json: "f", ron: "f", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "args", json: "args", ron: "args", ty: <Vec<Expr> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "Rec", json: "Rec", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <BTreeMap<String, Expr> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }] });
    fn from_val(v: &Val) -> Self { let Val::Enum(i_, x_) = v else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::Nil, 1 => Self::Num(Subject::from_val(&x_[0])), 2 => Self::Text(Subject::from_val(&x_[0])), 3 => Self::Neg(Subject::from_val(&x_[0])), 4 => Self::Add(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), 5 => Self::Call { f: Subject::from_val(&x_[0]), args: Subject::from_val(&x_[1]) }, 6 => Self::Rec(Subject::from_val(&x_[0])), _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::Nil => Val::Enum(0, vec![]), Self::Num(b0) => Val::Enum(1, vec![b0.to_val()]), Self::Text(b0) => Val::Enum(2, vec![b0.to_val()]), Self::Neg(b0) => Val::Enum(3, vec![b0.to_val()]), Self::Add(b0, b1) => Val::Enum(4, vec![b0.to_val(), b1.to_val()]), Self::Call { f: b0, args: b1 } => Val::Enum(5, vec![b0.to_val(), b1.to_val()]), Self::Rec(b0) => Val::Enum(6, vec![b0.to_val()]), } }
}

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct TupTup( pub (u8, String),  pub (u8, u16, u32, u64),  pub (u8, String));
impl Subject for TupTup  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "TupTup", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "", json: "", ron: "", ty: <(u8, u16, u32, u64) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "", json: "", ron: "", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); TupTup(Subject::from_val(&x[0]), Subject::from_val(&x[1]), Subject::from_val(&x[2])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val(), self.1.to_val(), self.2.to_val()]) }
}

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct One( pub u8);
impl Subject for One  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "One", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); One(Subject::from_val(&x[0])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val()]) }
}

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct OneVec( pub Vec<Expr>);
impl Subject for OneVec  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "OneVec", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <Vec<Expr> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); OneVec(Subject::from_val(&x[0])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val()]) }
}

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct OneOne( pub One);
impl Subject for OneOne  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "OneOne", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <One as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); OneOne(Subject::from_val(&x[0])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val()]) }
}

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct OneTup( pub (u8, String));
impl Subject for OneTup  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "OneTup", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); OneTup(Subject::from_val(&x[0])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val()]) }
}

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct OneArr( pub [One; 2]);
impl Subject for OneArr  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "OneArr", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <[One; 2] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); OneArr(Subject::from_val(&x[0])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val()]) }
}

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct Marks {
     pub नमस्ते: u8,
     pub नम: Option<u8>,
     pub x̂: String,
     pub x̂y: MarkEnum,
     pub a·b: Vec<MarkEnum>,
     pub a‿b: (u8, u8),
     pub ℘: bool,
     pub ℮1: u16,
     pub क्षि: Option<Box<Marks>>,
     pub x: u8,
}
impl Subject for Marks  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "Marks", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "नमस्ते", json: "नमस्ते", ron: "नमस्ते", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "नम", json: "नम", ron: "नम", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None },
        FieldDef { name: "x̂", json: "x̂", ron: "x̂", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "x̂y", json: "x̂y", ron: "x̂y", ty: <MarkEnum as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "a·b", json: "a·b", ron: "a·b", ty: <Vec<MarkEnum> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "a‿b", json: "a‿b", ron: "a‿b", ty: <(u8, u8) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "℘", json: "℘", ron: "℘", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "℮1", json: "℮1", ron: "℮1", ty: <u16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "क्षि", json: "क्षि", ron: "क्षि", ty: <Option<Box<Marks>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None },
        FieldDef { name: "x", json: "x", ron: "x", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); Marks { नमस्ते: Subject::from_val(&x[0]), नम: Subject::from_val(&x[1]), x̂: Subject::from_val(&x[2]), x̂y: Subject::from_val(&x[3]), a·b: Subject::from_val(&x[4]), a‿b: Subject::from_val(&x[5]), ℘: Subject::from_val(&x[6]), ℮1: Subject::from_val(&x[7]), क्षि: Subject::from_val(&x[8]), x: Subject::from_val(&x[9]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.नमस्ते.to_val(), self.नम.to_val(), self.x̂.to_val(), self.x̂y.to_val(), self.a·b.to_val(), self.a‿b.to_val(), self.℘.to_val(), self.℮1.to_val(), self.क्षि.to_val(), self.x.to_val()]) }
}

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum MarkEnum {
    X̂,
    Aि(u8),
    ℘z { क्ष: u8, क: u8 },
    Á्,
    X,
}
impl Subject for MarkEnum {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "MarkEnum", variants: &[VariantDef { name: "X̂", json: "X̂", kind: Kind::Unit, fields: &[] }, VariantDef { name: "Aि", json: "Aि", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "℘z", json: "℘z", kind: Kind::Named, fields: &[FieldDef { name: "क्ष", json: "क्ष", ron: "क्ष", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "क", json: "क", ron: "क", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "Á्", json: "Á्", kind: Kind::Unit, fields: &[] }, VariantDef { name: "X", json: "X", kind: Kind::Unit, fields: &[] }] });
    fn from_val(v: &Val) -> Self { let Val::Enum(i_, x_) = v else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::X̂, 1 => Self::Aि(Subject::from_val(&x_[0])), 2 => Self::℘z { क्ष: Subject::from_val(&x_[0]), क: Subject::from_val(&x_[1]) }, 3 => Self::Á्, 4 => Self::X, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::X̂ => Val::Enum(0, vec![]), Self::Aि(b0) => Val::Enum(1, vec![b0.to_val()]), Self::℘z { क्ष: b0, क: b1 } => Val::Enum(2, vec![b0.to_val(), b1.to_val()]), Self::Á् => Val::Enum(3, vec![]), Self::X => Val::Enum(4, vec![]), } }
}

pub type Maybe<T> = Option<T>;
pub type Text = String;
pub type Few = [Maybe<u8>; 2];


#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct Aliases {
     pub a: Maybe<u8>,
     pub b: Maybe<Text>,
     pub c: Vec<Maybe<Aliased>>,
     pub d: Text,
     pub e: Few,
     pub f: Option<Few>,
}
impl Subject for Aliases  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "Aliases", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "a", json: "a", ron: "a", ty: <Maybe<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "b", json: "b", ron: "b", ty: <Maybe<Text> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "c", json: "c", ron: "c", ty: <Vec<Maybe<Aliased>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "d", json: "d", ron: "d", ty: <Text as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "e", json: "e", ron: "e", ty: <Few as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "f", json: "f", ron: "f", ty: <Option<Few> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); Aliases { a: Subject::from_val(&x[0]), b: Subject::from_val(&x[1]), c: Subject::from_val(&x[2]), d: Subject::from_val(&x[3]), e: Subject::from_val(&x[4]), f: Subject::from_val(&x[5]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val(), self.e.to_val(), self.f.to_val()]) }
}

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct AliasedTup( pub Maybe<u8>,  pub Text,  pub Few);
impl Subject for AliasedTup  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "AliasedTup", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <Maybe<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "", json: "", ron: "", ty: <Text as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "", json: "", ron: "", ty: <Few as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); AliasedTup(Subject::from_val(&x[0]), Subject::from_val(&x[1]), Subject::from_val(&x[2])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val(), self.1.to_val(), self.2.to_val()]) }
}

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum Aliased {
    A(Maybe<u8>),
    B { x: Maybe<Text>, y: Few },
    C,
}
impl Subject for Aliased {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "Aliased", variants: &[VariantDef { name: "A", json: "A", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <Maybe<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "B", json: "B", kind: Kind::Named, fields: &[FieldDef { name: "x", json: "x", ron: "x", ty: <Maybe<Text> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "y", json: "y", ron: "y", ty: <Few as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "C", json: "C", kind: Kind::Unit, fields: &[] }] });
    fn from_val(v: &Val) -> Self { let Val::Enum(i_, x_) = v else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::A(Subject::from_val(&x_[0])), 1 => Self::B { x: Subject::from_val(&x_[0]), y: Subject::from_val(&x_[1]) }, 2 => Self::C, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::A(b0) => Val::Enum(0, vec![b0.to_val()]), Self::B { x: b0, y: b1 } => Val::Enum(1, vec![b0.to_val(), b1.to_val()]), Self::C => Val::Enum(2, vec![]), } }
}

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon, Default)]
#[nserde(default)]
pub struct OneDefault( pub u8);
impl Subject for OneDefault  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "OneDefault", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); OneDefault(Subject::from_val(&x[0])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val()]) }
}

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(serialize_none_as_null)]
pub struct OneNull( pub Option<u8>);
impl Subject for OneNull  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "OneNull", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); OneNull(Subject::from_val(&x[0])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val()]) }
}

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(skip)]
pub struct OneSkip( pub String);
impl Subject for OneSkip  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "OneSkip", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); OneSkip(Subject::from_val(&x[0])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val()]) }
}

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(crate = "nanoserde")]
pub struct OneCrate( pub Vec<u8>);
impl Subject for OneCrate  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "OneCrate", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <Vec<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); OneCrate(Subject::from_val(&x[0])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val()]) }
}

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(serialize_none_as_null)]
#[nserde(transparent)]
pub struct OneBoth( pub Option<String>);
impl Subject for OneBoth  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "OneBoth", kind: Kind::Tuple, transparent: true, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); OneBoth(Subject::from_val(&x[0])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val()]) }
}

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon, Default)]
#[nserde(transparent)]
#[nserde(default)]
pub struct OneClear( pub OneDefault);
impl Subject for OneClear  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "OneClear", kind: Kind::Tuple, transparent: true, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <OneDefault as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); OneClear(Subject::from_val(&x[0])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val()]) }
}

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct Ones {
     pub a: OneDefault,
     pub b: Option<OneNull>,
     pub c: Vec<OneSkip>,
     pub d: OneCrate,
     pub e: OneBoth,
     pub f: OneClear,
}
impl Subject for Ones  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "Ones", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "a", json: "a", ron: "a", ty: <OneDefault as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "b", json: "b", ron: "b", ty: <Option<OneNull> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None },
        FieldDef { name: "c", json: "c", ron: "c", ty: <Vec<OneSkip> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "d", json: "d", ron: "d", ty: <OneCrate as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "e", json: "e", ron: "e", ty: <OneBoth as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "f", json: "f", ron: "f", ty: <OneClear as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); Ones { a: Subject::from_val(&x[0]), b: Subject::from_val(&x[1]), c: Subject::from_val(&x[2]), d: Subject::from_val(&x[3]), e: Subject::from_val(&x[4]), f: Subject::from_val(&x[5]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val(), self.e.to_val(), self.f.to_val()]) }
}

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum Nested {
    A(Expr),
    B { a: Expr },
    C(One, Vec<One>),
    D((u8, u8)),
    E([u8; 2]),
    F(Box<Nested>),
    G(Option<Box<Nested>>),
    H { h: Option<Box<Nested>>, i: u8 },
}
impl Subject for Nested {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "Nested", variants: &[VariantDef { name: "A", json: "A", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <Expr as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "B", json: "B", kind: Kind::Named, fields: &[FieldDef { name: "a", json: "a", ron: "a", ty: <Expr as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "C", json: "C", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <One as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "", json: "", ron: "", ty: <Vec<One> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "D", json: "D", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <(u8, u8) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "E", json: "E", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <[u8; 2] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "F", json: "F", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <Box<Nested> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "G", json: "G", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <Option<Box<Nested>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None }] }, VariantDef { name: "H", json: "H", kind: Kind::Named, fields: &[FieldDef { name: "h", json: "h", ron: "h", ty: <Option<Box<Nested>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None }, FieldDef { name: "i", json: "i", ron: "i", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }] });
    fn from_val(v: &Val) -> Self { let Val::Enum(i_, x_) = v else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::A(Subject::from_val(&x_[0])), 1 => Self::B { a: Subject::from_val(&x_[0]) }, 2 => Self::C(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), 3 => Self::D(Subject::from_val(&x_[0])), 4 => Self::E(Subject::from_val(&x_[0])), 5 => Self::F(Subject::from_val(&x_[0])), 6 => Self::G(Subject::from_val(&x_[0])), 7 => Self::H { h: Subject::from_val(&x_[0]), i: Subject::from_val(&x_[1]) }, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::A(b0) => Val::Enum(0, vec![b0.to_val()]), Self::B { a: b0 } => Val::Enum(1, vec![b0.to_val()]), Self::C(b0, b1) => Val::Enum(2, vec![b0.to_val(), b1.to_val()]), Self::D(b0) => Val::Enum(3, vec![b0.to_val()]), Self::E(b0) => Val::Enum(4, vec![b0.to_val()]), Self::F(b0) => Val::Enum(5, vec![b0.to_val()]), Self::G(b0) => Val::Enum(6, vec![b0.to_val()]), Self::H { h: b0, i: b1 } => Val::Enum(7, vec![b0.to_val(), b1.to_val()]), } }
}

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum Alike {
    A,
    Aa,
    AA,
    a { x: u8 },
    aa(u8),
    A_,
    A1(u8, u8),
    A11 { x: u8, xx: u8, x_: u8, _x: u8, X: u8 },
}
impl Subject for Alike {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "Alike", variants: &[VariantDef { name: "A", json: "A", kind: Kind::Unit, fields: &[] }, VariantDef { name: "Aa", json: "Aa", kind: Kind::Unit, fields: &[] }, VariantDef { name: "AA", json: "AA", kind: Kind::Unit, fields: &[] }, VariantDef { name: "a", json: "a", kind: Kind::Named, fields: &[FieldDef { name: "x", json: "x", ron: "x", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "aa", json: "aa", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "A_", json: "A_", kind: Kind::Unit, fields: &[] }, VariantDef { name: "A1", json: "A1", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "", json: "", ron: "", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "A11", json: "A11", kind: Kind::Named, fields: &[FieldDef { name: "x", json: "x", ron: "x", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "xx", json: "xx", ron: "xx", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "x_", json: "x_", ron: "x_", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "_x", json: "_x", ron: "_x", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "X", json: "X", ron: "X", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }] });
    fn from_val(v: &Val) -> Self { let Val::Enum(i_, x_) = v else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::A, 1 => Self::Aa, 2 => Self::AA, 3 => Self::a { x: Subject::from_val(&x_[0]) }, 4 => Self::aa(Subject::from_val(&x_[0])), 5 => Self::A_, 6 => Self::A1(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), 7 => Self::A11 { x: Subject::from_val(&x_[0]), xx: Subject::from_val(&x_[1]), x_: Subject::from_val(&x_[2]), _x: Subject::from_val(&x_[3]), X: Subject::from_val(&x_[4]) }, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::A => Val::Enum(0, vec![]), Self::Aa => Val::Enum(1, vec![]), Self::AA => Val::Enum(2, vec![]), Self::a { x: b0 } => Val::Enum(3, vec![b0.to_val()]), Self::aa(b0) => Val::Enum(4, vec![b0.to_val()]), Self::A_ => Val::Enum(5, vec![]), Self::A1(b0, b1) => Val::Enum(6, vec![b0.to_val(), b1.to_val()]), Self::A11 { x: b0, xx: b1, x_: b2, _x: b3, X: b4 } => Val::Enum(7, vec![b0.to_val(), b1.to_val(), b2.to_val(), b3.to_val(), b4.to_val()]), } }
}

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct Alikes {
     pub a: u8,
     pub aa: u8,
     pub aaa: Option<u8>,
     pub a_: u8,
     pub _a: u8,
     pub A: u8,
     pub a1: Option<Alike>,
     pub a11: u8,
}
impl Subject for Alikes  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "Alikes", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "a", json: "a", ron: "a", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "aa", json: "aa", ron: "aa", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "aaa", json: "aaa", ron: "aaa", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None },
        FieldDef { name: "a_", json: "a_", ron: "a_", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "_a", json: "_a", ron: "_a", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "A", json: "A", ron: "A", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "a1", json: "a1", ron: "a1", ty: <Option<Alike> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None },
        FieldDef { name: "a11", json: "a11", ron: "a11", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); Alikes { a: Subject::from_val(&x[0]), aa: Subject::from_val(&x[1]), aaa: Subject::from_val(&x[2]), a_: Subject::from_val(&x[3]), _a: Subject::from_val(&x[4]), A: Subject::from_val(&x[5]), a1: Subject::from_val(&x[6]), a11: Subject::from_val(&x[7]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.a.to_val(), self.aa.to_val(), self.aaa.to_val(), self.a_.to_val(), self._a.to_val(), self.A.to_val(), self.a1.to_val(), self.a11.to_val()]) }
}

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum Wordy {
    NONE,
    none,
    Nones,
    none_,
    NoneA(u8),
    Some(u8),
    SOME { a: u8 },
    some(String),
    null,
    NULL,
    Null { none: Option<u8>, null: Option<u8> },
    nul,
    True,
    TRUE,
    true_,
    trueish(bool),
    False(bool),
    inf,
    NaN,
    nan,
    Infinity,
    nil,
    Ok(u8),
    Err,
    secs,
    nanos,
    Default,
    e1,
    E1,
    e,
    E(u8),
    _x,
    u0041,
    x0 { true_: bool, NONE: Option<Box<Wordy>> },
}
impl Subject for Wordy {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "Wordy", variants: &[VariantDef { name: "NONE", json: "NONE", kind: Kind::Unit, fields: &[] }, VariantDef { name: "none", json: "none", kind: Kind::Unit, fields: &[] }, VariantDef { name: "Nones", json: "Nones", kind: Kind::Unit, fields: &[] }, VariantDef { name: "none_", json: "none_", kind: Kind::Unit, fields: &[] }, VariantDef { name: "NoneA", json: "NoneA", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "Some", json: "Some", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "SOME", json: "SOME", kind: Kind::Named, fields: &[FieldDef { name: "a", json: "a", ron: "a", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "some", json: "some", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "null", json: "null", kind: Kind::Unit, fields: &[] }, VariantDef { name: "NULL", json: "NULL", kind: Kind::Unit, fields: &[] }, VariantDef { name: "Null", json: "Null", kind: Kind::Named, fields: &[FieldDef { name: "none", json: "none", ron: "none", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None }, FieldDef { name: "null", json: "null", ron: "null", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None }] }, VariantDef { name: "nul", json: "nul", kind: Kind::Unit, fields: &[] }, VariantDef { name: "True", json: "True", kind: Kind::Unit, fields: &[] }, VariantDef { name: "TRUE", json: "TRUE", kind: Kind::Unit, fields: &[] }, VariantDef { name: "true_", json: "true_", kind: Kind::Unit, fields: &[] }, VariantDef { name: "trueish", json: "trueish", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "False", json: "False", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "inf", json: "inf", kind: Kind::Unit, fields: &[] }, VariantDef { name: "NaN", json: "NaN", kind: Kind::Unit, fields: &[] }, VariantDef { name: "nan", json: "nan", kind: Kind::Unit, fields: &[] }, VariantDef { name: "Infinity", json: "Infinity", kind: Kind::Unit, fields: &[] }, VariantDef { name: "nil", json: "nil", kind: Kind::Unit, fields: &[] }, VariantDef { name: "Ok", json: "Ok", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "Err", json: "Err", kind: Kind::Unit, fields: &[] }, VariantDef { name: "secs", json: "secs", kind: Kind::Unit, fields: &[] }, VariantDef { name: "nanos", json: "nanos", kind: Kind::Unit, fields: &[] }, VariantDef { name: "Default", json: "Default", kind: Kind::Unit, fields: &[] }, VariantDef { name: "e1", json: "e1", kind: Kind::Unit, fields: &[] }, VariantDef { name: "E1", json: "E1", kind: Kind::Unit, fields: &[] }, VariantDef { name: "e", json: "e", kind: Kind::Unit, fields: &[] }, VariantDef { name: "E", json: "E", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "_x", json: "_x", kind: Kind::Unit, fields: &[] }, VariantDef { name: "u0041", json: "u0041", kind: Kind::Unit, fields: &[] }, VariantDef { name: "x0", json: "x0", kind: Kind::Named, fields: &[FieldDef { name: "true_", json: "true_", ron: "true_", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "NONE", json: "NONE", ron: "NONE", ty: <Option<Box<Wordy>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None }] }] });
    fn from_val(v: &Val) -> Self { let Val::Enum(i_, x_) = v else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::NONE, 1 => Self::none, 2 => Self::Nones, 3 => Self::none_, 4 => Self::NoneA(Subject::from_val(&x_[0])), 5 => Self::Some(Subject::from_val(&x_[0])), 6 => Self::SOME { a: Subject::from_val(&x_[0]) }, 7 => Self::some(Subject::from_val(&x_[0])), 8 => Self::null, 9 => Self::NULL, 10 => Self::Null { none: Subject::from_val(&x_[0]), null: Subject::from_val(&x_[1]) }, 11 => Self::nul, 12 => Self::True, 13 => Self::TRUE, 14 => Self::true_, 15 => Self::trueish(Subject::from_val(&x_[0])), 16 => Self::False(Subject::from_val(&x_[0])), 17 => Self::inf, 18 => Self::NaN, 19 => Self::nan, 20 => Self::Infinity, 21 => Self::nil, 22 => Self::Ok(Subject::from_val(&x_[0])), 23 => Self::Err, 24 => Self::secs, 25 => Self::nanos, 26 => Self::Default, 27 => Self::e1, 28 => Self::E1, 29 => Self::e, 30 => Self::E(Subject::from_val(&x_[0])), 31 => Self::_x, 32 => Self::u0041, 33 => Self::x0 { true_: Subject::from_val(&x_[0]), NONE: Subject::from_val(&x_[1]) }, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::NONE => Val::Enum(0, vec![]), Self::none => Val::Enum(1, vec![]), Self::Nones => Val::Enum(2, vec![]), Self::none_ => Val::Enum(3, vec![]), Self::NoneA(b0) => Val::Enum(4, vec![b0.to_val()]), Self::Some(b0) => Val::Enum(5, vec![b0.to_val()]), Self::SOME { a: b0 } => Val::Enum(6, vec![b0.to_val()]), Self::some(b0) => Val::Enum(7, vec![b0.to_val()]), Self::null => Val::Enum(8, vec![]), Self::NULL => Val::Enum(9, vec![]), Self::Null { none: b0, null: b1 } => Val::Enum(10, vec![b0.to_val(), b1.to_val()]), Self::nul => Val::Enum(11, vec![]), Self::True => Val::Enum(12, vec![]), Self::TRUE => Val::Enum(13, vec![]), Self::true_ => Val::Enum(14, vec![]), Self::trueish(b0) => Val::Enum(15, vec![b0.to_val()]), Self::False(b0) => Val::Enum(16, vec![b0.to_val()]), Self::inf => Val::Enum(17, vec![]), Self::NaN => Val::Enum(18, vec![]), Self::nan => Val::Enum(19, vec![]), Self::Infinity => Val::Enum(20, vec![]), Self::nil => Val::Enum(21, vec![]), Self::Ok(b0) => Val::Enum(22, vec![b0.to_val()]), Self::Err => Val::Enum(23, vec![]), Self::secs => Val::Enum(24, vec![]), Self::nanos => Val::Enum(25, vec![]), Self::Default => Val::Enum(26, vec![]), Self::e1 => Val::Enum(27, vec![]), Self::E1 => Val::Enum(28, vec![]), Self::e => Val::Enum(29, vec![]), Self::E(b0) => Val::Enum(30, vec![b0.to_val()]), Self::_x => Val::Enum(31, vec![]), Self::u0041 => Val::Enum(32, vec![]), Self::x0 { true_: b0, NONE: b1 } => Val::Enum(33, vec![b0.to_val(), b1.to_val()]), } }
}

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct Wordies {
     pub none: Option<Wordy>,
     pub some: Vec<Option<Wordy>>,
     pub null: Option<Box<Wordy>>,
     pub NONE: (Option<Wordy>, u8),
     pub Some: BTreeMap<String, Option<Wordy>>,
     pub None: [Option<Wordy>; 2],
     pub nulls: Option<u8>,
     pub none_: Option<bool>,
     pub truex: bool,
     pub nan: f32,
     pub inf: f64,
     pub e: u8,
}
impl Subject for Wordies  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "Wordies", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "none", json: "none", ron: "none", ty: <Option<Wordy> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None },
        FieldDef { name: "some", json: "some", ron: "some", ty: <Vec<Option<Wordy>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "null", json: "null", ron: "null", ty: <Option<Box<Wordy>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None },
        FieldDef { name: "NONE", json: "NONE", ron: "NONE", ty: <(Option<Wordy>, u8) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "Some", json: "Some", ron: "Some", ty: <BTreeMap<String, Option<Wordy>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "None", json: "None", ron: "None", ty: <[Option<Wordy>; 2] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "nulls", json: "nulls", ron: "nulls", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None },
        FieldDef { name: "none_", json: "none_", ron: "none_", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None },
        FieldDef { name: "truex", json: "truex", ron: "truex", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "nan", json: "nan", ron: "nan", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "inf", json: "inf", ron: "inf", ty: <f64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "e", json: "e", ron: "e", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); Wordies { none: Subject::from_val(&x[0]), some: Subject::from_val(&x[1]), null: Subject::from_val(&x[2]), NONE: Subject::from_val(&x[3]), Some: Subject::from_val(&x[4]), None: Subject::from_val(&x[5]), nulls: Subject::from_val(&x[6]), none_: Subject::from_val(&x[7]), truex: Subject::from_val(&x[8]), nan: Subject::from_val(&x[9]), inf: Subject::from_val(&x[10]), e: Subject::from_val(&x[11]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.none.to_val(), self.some.to_val(), self.null.to_val(), self.NONE.to_val(), self.Some.to_val(), self.None.to_val(), self.nulls.to_val(), self.none_.to_val(), self.truex.to_val(), self.nan.to_val(), self.inf.to_val(), self.e.to_val()]) }
}

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct WordyOpts( pub Option<Wordy>,  pub Option<Wordy>,  pub Option<Wordies>);
impl Subject for WordyOpts  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "WordyOpts", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <Option<Wordy> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None },
        FieldDef { name: "", json: "", ron: "", ty: <Option<Wordy> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None },
        FieldDef { name: "", json: "", ron: "", ty: <Option<Wordies> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); WordyOpts(Subject::from_val(&x[0]), Subject::from_val(&x[1]), Subject::from_val(&x[2])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val(), self.1.to_val(), self.2.to_val()]) }
}

#[derive(SerBin, DeBin, SerRon, DeRon)]
pub struct SkipFirst(#[nserde(skip)] pub u8,  pub u16);
impl Subject for SkipFirst  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "SkipFirst", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <u8 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "", json: "", ron: "", ty: <u16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); SkipFirst(Subject::from_val(&x[0]), Subject::from_val(&x[1])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val(), self.1.to_val()]) }
}

#[derive(SerBin, DeBin, SerRon, DeRon)]
pub struct SkipFirstTwo(#[nserde(skip)] pub u8, #[nserde(skip)] pub String,  pub u16,  pub (u8, u16));
impl Subject for SkipFirstTwo  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "SkipFirstTwo", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <u8 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "", json: "", ron: "", ty: <String as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "", json: "", ron: "", ty: <u16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "", json: "", ron: "", ty: <(u8, u16) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); SkipFirstTwo(Subject::from_val(&x[0]), Subject::from_val(&x[1]), Subject::from_val(&x[2]), Subject::from_val(&x[3])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val(), self.1.to_val(), self.2.to_val(), self.3.to_val()]) }
}

#[derive(SerBin, DeBin, SerRon, DeRon)]
pub struct SkipMid( pub u8, #[nserde(skip)] pub String,  pub u16);
impl Subject for SkipMid  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "SkipMid", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "", json: "", ron: "", ty: <String as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "", json: "", ron: "", ty: <u16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); SkipMid(Subject::from_val(&x[0]), Subject::from_val(&x[1]), Subject::from_val(&x[2])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val(), self.1.to_val(), self.2.to_val()]) }
}

#[derive(SerBin, DeBin, SerRon, DeRon)]
pub struct SkipLast( pub u8,  pub String, #[nserde(skip)] pub u16);
impl Subject for SkipLast  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "SkipLast", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "", json: "", ron: "", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "", json: "", ron: "", ty: <u16 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u16 as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); SkipLast(Subject::from_val(&x[0]), Subject::from_val(&x[1]), Subject::from_val(&x[2])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val(), self.1.to_val(), self.2.to_val()]) }
}

#[derive(SerBin, DeBin, SerRon, DeRon)]
pub struct SkipLastTwo( pub u8, #[nserde(skip)] pub String, #[nserde(skip)] pub u16);
impl Subject for SkipLastTwo  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "SkipLastTwo", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "", json: "", ron: "", ty: <String as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "", json: "", ron: "", ty: <u16 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u16 as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); SkipLastTwo(Subject::from_val(&x[0]), Subject::from_val(&x[1]), Subject::from_val(&x[2])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val(), self.1.to_val(), self.2.to_val()]) }
}

#[derive(SerBin, DeBin, SerRon, DeRon)]
pub struct SkipEnds(#[nserde(skip)] pub Vec<u8>,  pub Option<u8>, #[nserde(skip)] pub u16);
impl Subject for SkipEnds  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "SkipEnds", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <Vec<u8> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<u8> as Default>::default().to_val()) },
        FieldDef { name: "", json: "", ron: "", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None },
        FieldDef { name: "", json: "", ron: "", ty: <u16 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u16 as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); SkipEnds(Subject::from_val(&x[0]), Subject::from_val(&x[1]), Subject::from_val(&x[2])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val(), self.1.to_val(), self.2.to_val()]) }
}

#[derive(SerBin, DeBin, SerRon, DeRon)]
pub struct SkipOdd( pub u8, #[nserde(skip)] pub u8,  pub u8, #[nserde(skip)] pub u8,  pub u8);
impl Subject for SkipOdd  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "SkipOdd", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "", json: "", ron: "", ty: <u8 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "", json: "", ron: "", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "", json: "", ron: "", ty: <u8 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "", json: "", ron: "", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); SkipOdd(Subject::from_val(&x[0]), Subject::from_val(&x[1]), Subject::from_val(&x[2]), Subject::from_val(&x[3]), Subject::from_val(&x[4])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val(), self.1.to_val(), self.2.to_val(), self.3.to_val(), self.4.to_val()]) }
}

#[derive(SerBin, DeBin, SerRon, DeRon)]
pub struct SkipAll(#[nserde(skip)] pub u8, #[nserde(skip)] pub String);
impl Subject for SkipAll  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "SkipAll", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <u8 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "", json: "", ron: "", ty: <String as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); SkipAll(Subject::from_val(&x[0]), Subject::from_val(&x[1])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val(), self.1.to_val()]) }
}

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct SkipNamedFirst {
    #[nserde(skip)] pub a: u8,
     pub b: u16,
     pub c: Option<u8>,
}
impl Subject for SkipNamedFirst  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "SkipNamedFirst", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "a", json: "a", ron: "a", ty: <u8 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "b", json: "b", ron: "b", ty: <u16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "c", json: "c", ron: "c", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); SkipNamedFirst { a: Subject::from_val(&x[0]), b: Subject::from_val(&x[1]), c: Subject::from_val(&x[2]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) }
}

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct SkipNamedMid {
     pub a: u8,
    #[nserde(skip)] pub b: u16,
     pub c: Vec<u8>,
}
impl Subject for SkipNamedMid  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "SkipNamedMid", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "a", json: "a", ron: "a", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "b", json: "b", ron: "b", ty: <u16 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u16 as Default>::default().to_val()) },
        FieldDef { name: "c", json: "c", ron: "c", ty: <Vec<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); SkipNamedMid { a: Subject::from_val(&x[0]), b: Subject::from_val(&x[1]), c: Subject::from_val(&x[2]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) }
}

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct SkipNamedLast {
     pub a: u8,
     pub b: u16,
    #[nserde(skip)] pub c: Option<u8>,
}
impl Subject for SkipNamedLast  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "SkipNamedLast", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "a", json: "a", ron: "a", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "b", json: "b", ron: "b", ty: <u16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "c", json: "c", ron: "c", ty: <Option<u8> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); SkipNamedLast { a: Subject::from_val(&x[0]), b: Subject::from_val(&x[1]), c: Subject::from_val(&x[2]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) }
}

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct SkipNamedAll {
    #[nserde(skip)] pub a: u8,
    #[nserde(skip)] pub b: u16,
}
impl Subject for SkipNamedAll  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "SkipNamedAll", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "a", json: "a", ron: "a", ty: <u8 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "b", json: "b", ron: "b", ty: <u16 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u16 as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); SkipNamedAll { a: Subject::from_val(&x[0]), b: Subject::from_val(&x[1]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.a.to_val(), self.b.to_val()]) }
}

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct SkipNamedOpts {
     pub a: Option<u8>,
    #[nserde(skip)] pub b: Option<u16>,
     pub c: Option<u8>,
    #[nserde(skip)] pub d: String,
}
impl Subject for SkipNamedOpts  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "SkipNamedOpts", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "a", json: "a", ron: "a", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None },
        FieldDef { name: "b", json: "b", ron: "b", ty: <Option<u16> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<u16> as Default>::default().to_val()) },
        FieldDef { name: "c", json: "c", ron: "c", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None },
        FieldDef { name: "d", json: "d", ron: "d", ty: <String as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); SkipNamedOpts { a: Subject::from_val(&x[0]), b: Subject::from_val(&x[1]), c: Subject::from_val(&x[2]), d: Subject::from_val(&x[3]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val()]) }
}

#[derive(SerBin, DeBin, SerJson, DeJson)]
pub enum RenamedAlike {
    #[nserde(rename = "")] A,
    #[nserde(rename = " ")] B,
    #[nserde(rename = "a")] C,
    #[nserde(rename = " a")] D,
    #[nserde(rename = "a ")] E(u8),
    #[nserde(rename = " a ")] F { x: u8 },
    #[nserde(rename = "A")] G(u8, u8),
    #[nserde(rename = "a\t")] H,
    #[nserde(rename = "\na")] I,
    #[nserde(rename = "a ")] J,
    #[nserde(rename = "　a")] K(String),
    #[nserde(rename = "é")] M,
    #[nserde(rename = "é")] N { y: Option<u8> },
    #[nserde(rename = "\"")] O,
    #[nserde(rename = "\\")] P,
    #[nserde(rename = "'")] Q,
    #[nserde(rename = "a\u{200b}")] R(u8),
    #[nserde(rename = "a\u{feff}")] S,
}
impl Subject for RenamedAlike {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "RenamedAlike", variants: &[VariantDef { name: "A", json: "", kind: Kind::Unit, fields: &[] }, VariantDef { name: "B", json: " ", kind: Kind::Unit, fields: &[] }, VariantDef { name: "C", json: "a", kind: Kind::Unit, fields: &[] }, VariantDef { name: "D", json: " a", kind: Kind::Unit, fields: &[] }, VariantDef { name: "E", json: "a ", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "F", json: " a ", kind: Kind::Named, fields: &[FieldDef { name: "x", json: "x", ron: "x", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "G", json: "A", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "", json: "", ron: "", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "H", json: "a\t", kind: Kind::Unit, fields: &[] }, VariantDef { name: "I", json: "\na", kind: Kind::Unit, fields: &[] }, VariantDef { name: "J", json: "a ", kind: Kind::Unit, fields: &[] }, VariantDef { name: "K", json: "　a", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "M", json: "é", kind: Kind::Unit, fields: &[] }, VariantDef { name: "N", json: "é", kind: Kind::Named, fields: &[FieldDef { name: "y", json: "y", ron: "y", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None }] }, VariantDef { name: "O", json: "\"", kind: Kind::Unit, fields: &[] }, VariantDef { name: "P", json: "\\", kind: Kind::Unit, fields: &[] }, VariantDef { name: "Q", json: "'", kind: Kind::Unit, fields: &[] }, VariantDef { name: "R", json: "a\u{200b}", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "S", json: "a\u{feff}", kind: Kind::Unit, fields: &[] }] });
    fn from_val(v: &Val) -> Self { let Val::Enum(i_, x_) = v else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::A, 1 => Self::B, 2 => Self::C, 3 => Self::D, 4 => Self::E(Subject::from_val(&x_[0])), 5 => Self::F { x: Subject::from_val(&x_[0]) }, 6 => Self::G(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), 7 => Self::H, 8 => Self::I, 9 => Self::J, 10 => Self::K(Subject::from_val(&x_[0])), 11 => Self::M, 12 => Self::N { y: Subject::from_val(&x_[0]) }, 13 => Self::O, 14 => Self::P, 15 => Self::Q, 16 => Self::R(Subject::from_val(&x_[0])), 17 => Self::S, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::A => Val::Enum(0, vec![]), Self::B => Val::Enum(1, vec![]), Self::C => Val::Enum(2, vec![]), Self::D => Val::Enum(3, vec![]), Self::E(b0) => Val::Enum(4, vec![b0.to_val()]), Self::F { x: b0 } => Val::Enum(5, vec![b0.to_val()]), Self::G(b0, b1) => Val::Enum(6, vec![b0.to_val(), b1.to_val()]), Self::H => Val::Enum(7, vec![]), Self::I => Val::Enum(8, vec![]), Self::J => Val::Enum(9, vec![]), Self::K(b0) => Val::Enum(10, vec![b0.to_val()]), Self::M => Val::Enum(11, vec![]), Self::N { y: b0 } => Val::Enum(12, vec![b0.to_val()]), Self::O => Val::Enum(13, vec![]), Self::P => Val::Enum(14, vec![]), Self::Q => Val::Enum(15, vec![]), Self::R(b0) => Val::Enum(16, vec![b0.to_val()]), Self::S => Val::Enum(17, vec![]), } }
}

#[derive(SerBin, DeBin, SerJson, DeJson)]
pub struct EscapedNames {
    #[nserde(rename = "\n")] pub m0: Option<u8>,
    #[nserde(rename = "\r")] pub m1: u8,
    #[nserde(rename = "\t")] pub m2: u8,
    #[nserde(rename = "\0")] pub m3: Option<u8>,
    #[nserde(rename = "\x41")] pub m4: u8,
    #[nserde(rename = "\x7f")] pub m5: u8,
    #[nserde(rename = "\x7E")] pub m6: Option<u8>,
    #[nserde(rename = "\x0b")] pub m7: u8,
    #[nserde(rename = "\'")] pub m8: u8,
    #[nserde(rename = "\u{e9}")] pub m9: Option<u8>,
    #[nserde(rename = "\u{1_F600}")] pub m10: u8,
    #[nserde(rename = "\u{10fffF}")] pub m11: u8,
    #[nserde(rename = "\\n")] pub m12: Option<u8>,
    #[nserde(rename = "\\u{41}")] pub m13: u8,
    #[nserde(rename = "\x5c")] pub m14: u8,
    #[nserde(rename = "\x22")] pub m15: Option<u8>,
    #[nserde(rename = "\u{a}b\x61\n\u{5C}\x6d")] pub m16: u8,
}
impl Subject for EscapedNames  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "EscapedNames", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "m0", json: "\n", ron: "\n", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None },
        FieldDef { name: "m1", json: "\r", ron: "\r", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "m2", json: "\t", ron: "\t", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "m3", json: "\0", ron: "\0", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None },
        FieldDef { name: "m4", json: "\x41", ron: "\x41", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "m5", json: "\x7f", ron: "\x7f", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "m6", json: "\x7E", ron: "\x7E", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None },
        FieldDef { name: "m7", json: "\x0b", ron: "\x0b", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "m8", json: "\'", ron: "\'", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "m9", json: "\u{e9}", ron: "\u{e9}", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None },
        FieldDef { name: "m10", json: "\u{1_F600}", ron: "\u{1_F600}", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "m11", json: "\u{10fffF}", ron: "\u{10fffF}", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "m12", json: "\\n", ron: "\\n", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None },
        FieldDef { name: "m13", json: "\\u{41}", ron: "\\u{41}", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "m14", json: "\x5c", ron: "\x5c", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "m15", json: "\x22", ron: "\x22", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None },
        FieldDef { name: "m16", json: "\u{a}b\x61\n\u{5C}\x6d", ron: "\u{a}b\x61\n\u{5C}\x6d", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); EscapedNames { m0: Subject::from_val(&x[0]), m1: Subject::from_val(&x[1]), m2: Subject::from_val(&x[2]), m3: Subject::from_val(&x[3]), m4: Subject::from_val(&x[4]), m5: Subject::from_val(&x[5]), m6: Subject::from_val(&x[6]), m7: Subject::from_val(&x[7]), m8: Subject::from_val(&x[8]), m9: Subject::from_val(&x[9]), m10: Subject::from_val(&x[10]), m11: Subject::from_val(&x[11]), m12: Subject::from_val(&x[12]), m13: Subject::from_val(&x[13]), m14: Subject::from_val(&x[14]), m15: Subject::from_val(&x[15]), m16: Subject::from_val(&x[16]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.m0.to_val(), self.m1.to_val(), self.m2.to_val(), self.m3.to_val(), self.m4.to_val(), self.m5.to_val(), self.m6.to_val(), self.m7.to_val(), self.m8.to_val(), self.m9.to_val(), self.m10.to_val(), self.m11.to_val(), self.m12.to_val(), self.m13.to_val(), self.m14.to_val(), self.m15.to_val(), self.m16.to_val()]) }
}

#[derive(SerBin, DeBin, SerJson, DeJson)]
pub enum EscapedVariants {
    #[nserde(rename = "\n")] V0,
    #[nserde(rename = "\r")] V1(u8),
    #[nserde(rename = "\t")] V2 { x: u8 },
    #[nserde(rename = "\0")] V3,
    #[nserde(rename = "\x41")] V4(u8),
    #[nserde(rename = "\x7f")] V5 { x: u8 },
    #[nserde(rename = "\x7E")] V6,
    #[nserde(rename = "\x0b")] V7(u8),
    #[nserde(rename = "\'")] V8 { x: u8 },
    #[nserde(rename = "\u{e9}")] V9,
    #[nserde(rename = "\u{1_F600}")] V10(u8),
    #[nserde(rename = "\u{10fffF}")] V11 { x: u8 },
    #[nserde(rename = "\\n")] V12,
    #[nserde(rename = "\\u{41}")] V13(u8),
    #[nserde(rename = "\x5c")] V14 { x: u8 },
    #[nserde(rename = "\x22")] V15,
    #[nserde(rename = "\u{a}b\x61\n\u{5C}\x6d")] V16(u8),
}
impl Subject for EscapedVariants {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "EscapedVariants", variants: &[VariantDef { name: "V0", json: "\n", kind: Kind::Unit, fields: &[] }, VariantDef { name: "V1", json: "\r", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "V2", json: "\t", kind: Kind::Named, fields: &[FieldDef { name: "x", json: "x", ron: "x", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "V3", json: "\0", kind: Kind::Unit, fields: &[] }, VariantDef { name: "V4", json: "\x41", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "V5", json: "\x7f", kind: Kind::Named, fields: &[FieldDef { name: "x", json: "x", ron: "x", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "V6", json: "\x7E", kind: Kind::Unit, fields: &[] }, VariantDef { name: "V7", json: "\x0b", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "V8", json: "\'", kind: Kind::Named, fields: &[FieldDef { name: "x", json: "x", ron: "x", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "V9", json: "\u{e9}", kind: Kind::Unit, fields: &[] }, VariantDef { name: "V10", json: "\u{1_F600}", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "V11", json: "\u{10fffF}", kind: Kind::Named, fields: &[FieldDef { name: "x", json: "x", ron: "x", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "V12", json: "\\n", kind: Kind::Unit, fields: &[] }, VariantDef { name: "V13", json: "\\u{41}", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "V14", json: "\x5c", kind: Kind::Named, fields: &[FieldDef { name: "x", json: "x", ron: "x", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }, VariantDef { name: "V15", json: "\x22", kind: Kind::Unit, fields: &[] }, VariantDef { name: "V16", json: "\u{a}b\x61\n\u{5C}\x6d", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }] });
    fn from_val(v: &Val) -> Self { let Val::Enum(i_, x_) = v else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::V0, 1 => Self::V1(Subject::from_val(&x_[0])), 2 => Self::V2 { x: Subject::from_val(&x_[0]) }, 3 => Self::V3, 4 => Self::V4(Subject::from_val(&x_[0])), 5 => Self::V5 { x: Subject::from_val(&x_[0]) }, 6 => Self::V6, 7 => Self::V7(Subject::from_val(&x_[0])), 8 => Self::V8 { x: Subject::from_val(&x_[0]) }, 9 => Self::V9, 10 => Self::V10(Subject::from_val(&x_[0])), 11 => Self::V11 { x: Subject::from_val(&x_[0]) }, 12 => Self::V12, 13 => Self::V13(Subject::from_val(&x_[0])), 14 => Self::V14 { x: Subject::from_val(&x_[0]) }, 15 => Self::V15, 16 => Self::V16(Subject::from_val(&x_[0])), _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::V0 => Val::Enum(0, vec![]), Self::V1(b0) => Val::Enum(1, vec![b0.to_val()]), Self::V2 { x: b0 } => Val::Enum(2, vec![b0.to_val()]), Self::V3 => Val::Enum(3, vec![]), Self::V4(b0) => Val::Enum(4, vec![b0.to_val()]), Self::V5 { x: b0 } => Val::Enum(5, vec![b0.to_val()]), Self::V6 => Val::Enum(6, vec![]), Self::V7(b0) => Val::Enum(7, vec![b0.to_val()]), Self::V8 { x: b0 } => Val::Enum(8, vec![b0.to_val()]), Self::V9 => Val::Enum(9, vec![]), Self::V10(b0) => Val::Enum(10, vec![b0.to_val()]), Self::V11 { x: b0 } => Val::Enum(11, vec![b0.to_val()]), Self::V12 => Val::Enum(12, vec![]), Self::V13(b0) => Val::Enum(13, vec![b0.to_val()]), Self::V14 { x: b0 } => Val::Enum(14, vec![b0.to_val()]), Self::V15 => Val::Enum(15, vec![]), Self::V16(b0) => Val::Enum(16, vec![b0.to_val()]), } }
}

#[derive(SerBin, DeBin, SerJson, DeJson)]
pub struct EscapedLater {
     pub a: Vec<EscapedNames>,
     pub b: Vec<EscapedVariants>,
}
impl Subject for EscapedLater  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "EscapedLater", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "a", json: "a", ron: "a", ty: <Vec<EscapedNames> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "b", json: "b", ron: "b", ty: <Vec<EscapedVariants> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); EscapedLater { a: Subject::from_val(&x[0]), b: Subject::from_val(&x[1]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.a.to_val(), self.b.to_val()]) }
}

#[derive(SerBin, DeBin, SerJson, DeJson)]
pub struct RenamedAlikes {
    #[nserde(rename = "")] pub a: u8,
    #[nserde(rename = " ")] pub b: Option<u8>,
    #[nserde(rename = "a")] pub c: u8,
    #[nserde(rename = " a")] pub d: Option<RenamedAlike>,
    #[nserde(rename = "a ")] pub e: Vec<RenamedAlike>,
    #[nserde(rename = "A")] pub f: u8,
    #[nserde(rename = "a\t")] pub g: String,
    #[nserde(rename = "\na")] pub h: bool,
    #[nserde(rename = "a ")] pub i: u8,
    #[nserde(rename = "　a")] pub j: u8,
    #[nserde(rename = "é")] pub k: u8,
    #[nserde(rename = "é")] pub l: u8,
    #[nserde(rename = "\"")] pub m: u8,
    #[nserde(rename = "\\")] pub n: u8,
    #[nserde(rename = "a\u{feff}")] pub o: u8,
}
impl Subject for RenamedAlikes  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "RenamedAlikes", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "a", json: "", ron: "", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "b", json: " ", ron: " ", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None },
        FieldDef { name: "c", json: "a", ron: "a", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "d", json: " a", ron: " a", ty: <Option<RenamedAlike> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None },
        FieldDef { name: "e", json: "a ", ron: "a ", ty: <Vec<RenamedAlike> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "f", json: "A", ron: "A", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "g", json: "a\t", ron: "a\t", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "h", json: "\na", ron: "\na", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "i", json: "a ", ron: "a ", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "j", json: "　a", ron: "　a", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "k", json: "é", ron: "é", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "l", json: "é", ron: "é", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "m", json: "\"", ron: "\"", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "n", json: "\\", ron: "\\", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "o", json: "a\u{feff}", ron: "a\u{feff}", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); RenamedAlikes { a: Subject::from_val(&x[0]), b: Subject::from_val(&x[1]), c: Subject::from_val(&x[2]), d: Subject::from_val(&x[3]), e: Subject::from_val(&x[4]), f: Subject::from_val(&x[5]), g: Subject::from_val(&x[6]), h: Subject::from_val(&x[7]), i: Subject::from_val(&x[8]), j: Subject::from_val(&x[9]), k: Subject::from_val(&x[10]), l: Subject::from_val(&x[11]), m: Subject::from_val(&x[12]), n: Subject::from_val(&x[13]), o: Subject::from_val(&x[14]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val(), self.e.to_val(), self.f.to_val(), self.g.to_val(), self.h.to_val(), self.i.to_val(), self.j.to_val(), self.k.to_val(), self.l.to_val(), self.m.to_val(), self.n.to_val(), self.o.to_val()]) }
}

// made by macros, names coming from outside
macro_rules! made {
    ($n:ident, $a:ident, $b:ident) => {
        #[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
        pub struct $n { pub $a: u8, #[nserde(rename = "key_")] pub $b: Vec<$a> }
    };
}
#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum elem { X, Y { n: u8 } }
impl Subject for elem {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "elem", variants: &[
        VariantDef { name: "X", json: "X", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Y", json: "Y", kind: Kind::Named, fields: &[FieldDef { name: "n", json: "n", ron: "n", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] },
    ] });
    fn from_val(v: &Val) -> Self {
        match v { Val::Enum(0, _) => elem::X, Val::Enum(_, x) => elem::Y { n: u8::from_val(&x[0]) }, _ => panic!("harness: shape") }
    }
    fn to_val(&self) -> Val {
        match self { elem::X => Val::Enum(0, vec![]), elem::Y { n } => Val::Enum(1, vec![n.to_val()]) }
    }
}
made!(Made, elem, other);
impl Subject for Made  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "Made", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "elem", json: "elem", ron: "elem", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "other", json: "key_", ron: "key_", ty: <Vec<elem> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); Made { elem: Subject::from_val(&x[0]), other: Subject::from_val(&x[1]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.elem.to_val(), self.other.to_val()]) }
}

pub fn reg() -> Vec<Entry> {
    vec![
        entry!(TrackedNamed; bin json ron),
        entry!(TrackedTuple; bin json ron),
        entry!(TrackedEnum; bin json ron),
        entry!([TrackedNamed; 2]; bin json ron),
        entry!([TrackedEnum; 3]; bin json ron),
        entry!(Vec<TrackedEnum>; bin json ron),
        entry!(Option<[TrackedTuple; 2]>; bin json ron),
        entry!(BTreeMap<String, [TrackedEnum; 2]>; bin json ron),
        entry!([[TrackedEnum; 2]; 2]; bin json ron),
        entry!(LinkedList<TrackedTuple>; bin json ron),
        entry!(Maps; bin json ron),
        entry!(OtherHashed; json),
        entry!(Everything; bin json ron),
        entry!(Vec<Everything>; bin json ron),
        entry!(WideInts; bin),
        entry!(Options; bin json ron),
        entry!([Options; 2]; bin json ron),
        entry!(OptionsMid; bin json ron),
        entry!(OptionLast; bin json ron),
        entry!(OptionFirst; bin json ron),
        entry!(Tree; bin json ron),
        entry!(Chain; bin json ron),
        entry!(Expr; bin json ron),
        entry!(Vec<Expr>; bin json ron),
        entry!(HashMap<String, Expr>; bin json ron),
        entry!(TupTup; bin json ron),
        entry!(One; bin json ron),
        entry!(OneVec; bin json ron),
        entry!(OneOne; bin json ron),
        entry!(OneTup; bin json ron),
        entry!(OneArr; bin json ron),
        entry!(Marks; bin json ron),
        entry!(MarkEnum; bin json ron),
        entry!(Aliases; bin json ron),
        entry!(AliasedTup; bin json ron),
        entry!(Aliased; bin json ron),
        entry!(OneDefault; bin json ron),
        entry!(OneNull; bin json ron),
        entry!(OneSkip; bin json ron),
        entry!(OneCrate; bin json ron),
        entry!(OneBoth; bin json ron),
        entry!(OneClear; bin json ron),
        entry!(Ones; bin json ron),
        entry!([One; 2]; bin json ron),
        entry!(Nested; bin json ron),
        entry!(BTreeMap<String, Nested>; bin json ron),
        entry!(Alike; bin json ron),
        entry!(Alikes; bin json ron),
        entry!(Wordy; bin json ron),
        entry!(Wordies; bin json ron),
        entry!(WordyOpts; bin json ron),
        entry!(Option<Wordy>; bin json ron),
        entry!(Vec<Option<Wordy>>; bin json ron),
        entry!(SkipFirst; bin ron),
        entry!(SkipFirstTwo; bin ron),
        entry!(SkipMid; bin ron),
        entry!(SkipLast; bin ron),
        entry!(SkipLastTwo; bin ron),
        entry!(SkipEnds; bin ron),
        entry!(SkipOdd; bin ron),
        entry!(SkipAll; bin ron),
        entry!(SkipNamedFirst; bin json ron),
        entry!(SkipNamedMid; bin json ron),
        entry!(SkipNamedLast; bin json ron),
        entry!(SkipNamedAll; bin json ron),
        entry!(SkipNamedOpts; bin json ron),
        entry!(Vec<SkipFirst>; bin ron),
        entry!(RenamedAlike; bin json),
        entry!(EscapedNames; bin json),
        entry!(EscapedVariants; bin json),
        entry!(EscapedLater; bin json),
        entry!(RenamedAlikes; bin json),
        entry!(elem; bin json ron),
        entry!(Made; bin json ron),
    ]
}
