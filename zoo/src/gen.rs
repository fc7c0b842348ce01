// Written by tools/progen.py (seed 1).
#![allow(unused, non_snake_case, non_camel_case_types, non_upper_case_globals, clippy::all)]
use std::collections::*;
use std::time::{Duration, SystemTime};
use vcore::entry;
use vcore::reg::Entry;
use vcore::val::*;
use nanoserde::{SerBin, DeBin, SerJson, DeJson, SerRon, DeRon};
pub mod reexp { pub use nanoserde::*; }
pub mod inner { pub mod deeper { pub type Word = u16; } }
const LEN: usize = 2;
const LENI: i8 = 3;
pub trait Assoc { type Ty; }
impl Assoc for u8 { type Ty = u32; }
impl<X> Assoc for Vec<X> { type Ty = i16; }
pub type Alias<X> = Vec<X>;
pub type Text = String;
pub type OptAlias = Option<u8>;
/// anything, to be skipped
pub struct Odd<X>(std::marker::PhantomData<fn() -> Option<X>>);
impl<X> Default for Odd<X> { fn default() -> Self { Odd(std::marker::PhantomData) } }
impl<X> Clone for Odd<X> { fn clone(&self) -> Self { Odd(std::marker::PhantomData) } }
impl<X: 'static> Subject for Odd<X> { const TY: TyRef = &Ty::Unit; fn from_val(_: &Val) -> Self { Odd(std::marker::PhantomData) } fn to_val(&self) -> Val { Val::Unit } }
pub trait Known { type Ty; }
impl<X> Known for X { type Ty = u8; }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon, Default)] pub struct Kn<const K: i32>(pub u16);
#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon, Default)] pub struct Kc<const K: char> { pub k: u16 }
#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon, Default)] pub struct Kb<const K: bool>(pub u8, pub bool);
impl<const K: i32> Subject for Kn<K>  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "Kn", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <u16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u16 as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); Kn(Subject::from_val(&x[0])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val()]) }
}
impl<const K: char> Subject for Kc<K>  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "Kc", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "k", json: "k", ron: "k", ty: <u16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u16 as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); Kc { k: Subject::from_val(&x[0]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.k.to_val()]) }
}
impl<const K: bool> Subject for Kb<K>  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "Kb", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "", json: "", ron: "", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); Kb(Subject::from_val(&x[0]), Subject::from_val(&x[1])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val(), self.1.to_val()]) }
}
pub trait Marker {}
impl<X> Marker for X {}
pub trait MySerJson {}
impl<X> MySerJson for X {}
pub trait SerJsonX {}
impl<X> SerJsonX for X {}
pub trait WithDeBin {}
impl<X> WithDeBin for X {}
pub trait DeJsonOwned {}
impl<X> DeJsonOwned for X {}
pub trait SerBinary {}
impl<X> SerBinary for X {}
pub trait DeRonLike {}
impl<X> DeRonLike for X {}

#[derive(DeRon, SerRon, DeBin, DeJson, SerJson, SerBin)]
pub struct P1  {
    // plain comment
pub f0: f64,
    #[allow(dead_code)]
pub r#try: core::option::Option<bool>,
    pub(crate) o37: core::option::Option<(Kn<{ 1 - 3 }>, f64,)>,
    d1: ::std::option::Option<LinkedList<usize>>,
    pub kind: ::std::option::Option<Duration>,
    #[allow(dead_code)]
#[nserde(default_with = "self::dflt_1_0")]
pub(crate) a98: std::collections::BTreeSet<(i64, String)>,
    #[allow(unused, non_snake_case)]
#[nserde(rename = "c")]
/** block docs */
pub bytes: Vec<Box<f32>>,
    #[allow(unused, non_snake_case)]
#[nserde(default,)]
#[doc = "attr docs"]
pub(crate) v: u64,
}
impl Subject for P1  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P1", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <f64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f64 as Default>::default().to_val()) },
        FieldDef { name: "r#try", json: "try", ron: "try", ty: <core::option::Option<bool> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <core::option::Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "o37", json: "o37", ron: "o37", ty: <core::option::Option<(Kn<{ 1 - 3 }>, f64,)> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <core::option::Option<(Kn<{ 1 - 3 }>, f64,)> as Default>::default().to_val()) },
        FieldDef { name: "d1", json: "d1", ron: "d1", ty: <::std::option::Option<LinkedList<usize>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <::std::option::Option<LinkedList<usize>> as Default>::default().to_val()) },
        FieldDef { name: "kind", json: "kind", ron: "kind", ty: <::std::option::Option<Duration> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <::std::option::Option<Duration> as Default>::default().to_val()) },
        FieldDef { name: "a98", json: "a98", ron: "a98", ty: <std::collections::BTreeSet<(i64, String)> as Subject>::ty, skip: false, dflt: Dflt::Value(|| dflt_1_0().to_val()), is_opt: false, null_none: false, type_default: Some(|| <std::collections::BTreeSet<(i64, String)> as Default>::default().to_val()) },
        FieldDef { name: "bytes", json: "c", ron: "c", ty: <Vec<Box<f32>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<Box<f32>> as Default>::default().to_val()) },
        FieldDef { name: "v", json: "v", ron: "v", ty: <u64 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <u64 as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P1 { f0: Subject::from_val(&x[0]), r#try: Subject::from_val(&x[1]), o37: Subject::from_val(&x[2]), d1: Subject::from_val(&x[3]), kind: Subject::from_val(&x[4]), a98: Subject::from_val(&x[5]), bytes: Subject::from_val(&x[6]), v: Subject::from_val(&x[7]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.r#try.to_val(), self.o37.to_val(), self.d1.to_val(), self.kind.to_val(), self.a98.to_val(), self.bytes.to_val(), self.v.to_val()]) }
}
fn dflt_1_0() -> std::collections::BTreeSet<(i64, String)> { <std::collections::BTreeSet<(i64, String)> as Subject>::from_val(&vcore::gen::sample::<std::collections::BTreeSet<(i64, String)>>(441276232)) }

#[derive(SerRon, SerBin, DeBin, DeRon)]
pub(in crate) struct P2  {
    pub(crate) j16: (Duration, (u64, bool, i64,), String),
    #[allow(dead_code)]
d85: P1,
    pub(super) k72: P1,
    #[nserde(rename = r#"key"#)]
pub Z: Duration,
    // plain comment
#[nserde(default = "",)]
pub(crate) first: String,
    #[nserde(rename = "ser_json",)]
pub(super) name: P1,
}
impl Subject for P2  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P2", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "j16", json: "j16", ron: "j16", ty: <(Duration, (u64, bool, i64,), String) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(Duration, (u64, bool, i64,), String) as Default>::default().to_val()) },
        FieldDef { name: "d85", json: "d85", ron: "d85", ty: <P1 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "k72", json: "k72", ron: "k72", ty: <P1 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "Z", json: "key", ron: "key", ty: <Duration as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Duration as Default>::default().to_val()) },
        FieldDef { name: "first", json: "first", ron: "first", ty: <String as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: String = String::from(""); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "name", json: "ser_json", ron: "ser_json", ty: <P1 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P2 { j16: Subject::from_val(&x[0]), d85: Subject::from_val(&x[1]), k72: Subject::from_val(&x[2]), Z: Subject::from_val(&x[3]), first: Subject::from_val(&x[4]), name: Subject::from_val(&x[5]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.j16.to_val(), self.d85.to_val(), self.k72.to_val(), self.Z.to_val(), self.first.to_val(), self.name.to_val()]) }
}

#[derive(SerBin, SerRon)]
#[cfg(all())]
pub struct P2Lent<'a, 'b: 'a, F0: Sized + 'b, F1: 'b + Marker>  {
#[doc = "attr docs"]
j16: &'a (Duration, (u64, bool, i64,), String),
d85: &'b P1,
#[allow(unused, non_snake_case)]
k72: &'b F0,
#[nserde(rename = r#"key"#)]
Z: &'b Duration,
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
#[nserde(default = "",)]
#[allow(dead_code)]
first: &'b String,
#[nserde(rename = "ser_json")]
// plain comment
name: &'b F1
}
pub struct P2View(P2);
impl Subject for P2View { const TY: TyRef = <P2 as Subject>::TY; fn from_val(v: &Val) -> Self { P2View(Subject::from_val(v)) } fn to_val(&self) -> Val { self.0.to_val() } }
impl SerBin for P2View { fn ser_bin(&self, s: &mut Vec<u8>) { match &self.0 { P2 { j16: x0, d85: x1, k72: x2, Z: x3, first: x4, name: x5 } => P2Lent { j16: x0, d85: x1, k72: x2, Z: x3, first: x4, name: x5 }.ser_bin(s), } } }
impl DeBin for P2View { fn de_bin(o: &mut usize, d: &[u8]) -> Result<Self, nanoserde::DeBinErr> { Ok(P2View(DeBin::de_bin(o, d)?)) } }
impl SerRon for P2View { fn ser_ron(&self, d: usize, s: &mut nanoserde::SerRonState) { match &self.0 { P2 { j16: x0, d85: x1, k72: x2, Z: x3, first: x4, name: x5 } => P2Lent { j16: x0, d85: x1, k72: x2, Z: x3, first: x4, name: x5 }.ser_ron(d, s), } } }
impl DeRon for P2View { fn de_ron(s: &mut nanoserde::DeRonState, i: &mut core::str::Chars) -> Result<Self, nanoserde::DeRonErr> { Ok(P2View(DeRon::de_ron(s, i)?)) } }

#[derive(SerJson, SerRon)]
#[derive(DeRon, Eq, PartialEq, SerBin, Hash, DeJson, DeBin, Ord, PartialOrd)]
#[allow(clippy::all)] pub enum P3  {
    #[cfg(all())]
F,
    null,
    #[nserde(rename = "A ")]
/** block docs */
None_,
}
impl Subject for P3 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P3", variants: &[
        VariantDef { name: "F", json: "F", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "null", json: "null", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "None_", json: "A ", kind: Kind::Unit, fields: &[] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::F, 1 => Self::null, 2 => Self::None_, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::F => Val::Enum(0, vec![]), Self::null => Val::Enum(1, vec![]), Self::None_ => Val::Enum(2, vec![]), } }
}


#[derive(SerBin, DeBin, SerJson, SerRon, DeJson, DeRon)]
/** block docs */
#[allow(clippy::all)] pub enum P4  {
    Tuple {
#[allow(dead_code)]
x4: Box<::std::option::Option<f64>>,
},
    nan
}
impl Subject for P4 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P4", variants: &[
        VariantDef { name: "Tuple", json: "Tuple", kind: Kind::Named, fields: &[FieldDef { name: "x4", json: "x4", ron: "x4", ty: <Box<::std::option::Option<f64>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Box<::std::option::Option<f64>> as Default>::default().to_val()) }] },
        VariantDef { name: "nan", json: "nan", kind: Kind::Unit, fields: &[] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::Tuple { x4: Subject::from_val(&x_[0]) }, 1 => Self::nan, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::Tuple { x4: b0 } => Val::Enum(0, vec![b0.to_val()]), Self::nan => Val::Enum(1, vec![]), } }
}

#[derive(SerBin, SerJson, SerRon)]
pub enum P4Lent<'a>  {
#[allow(dead_code)]
Tuple {
// plain comment
x4: &'a Box<::std::option::Option<f64>>
},
nan
}
pub struct P4View(P4);
impl Subject for P4View { const TY: TyRef = <P4 as Subject>::TY; fn from_val(v: &Val) -> Self { P4View(Subject::from_val(v)) } fn to_val(&self) -> Val { self.0.to_val() } }
impl SerBin for P4View { fn ser_bin(&self, s: &mut Vec<u8>) { match &self.0 { P4::Tuple { x4: x0 } => P4Lent::Tuple { x4: x0 }.ser_bin(s), P4::nan => P4Lent::nan.ser_bin(s), } } }
impl DeBin for P4View { fn de_bin(o: &mut usize, d: &[u8]) -> Result<Self, nanoserde::DeBinErr> { Ok(P4View(DeBin::de_bin(o, d)?)) } }
impl SerJson for P4View { fn ser_json(&self, d: usize, s: &mut nanoserde::SerJsonState) { match &self.0 { P4::Tuple { x4: x0 } => P4Lent::Tuple { x4: x0 }.ser_json(d, s), P4::nan => P4Lent::nan.ser_json(d, s), } } }
impl DeJson for P4View { fn de_json(s: &mut nanoserde::DeJsonState, i: &mut core::str::Chars) -> Result<Self, nanoserde::DeJsonErr> { Ok(P4View(DeJson::de_json(s, i)?)) } }
impl SerRon for P4View { fn ser_ron(&self, d: usize, s: &mut nanoserde::SerRonState) { match &self.0 { P4::Tuple { x4: x0 } => P4Lent::Tuple { x4: x0 }.ser_ron(d, s), P4::nan => P4Lent::nan.ser_ron(d, s), } } }
impl DeRon for P4View { fn de_ron(s: &mut nanoserde::DeRonState, i: &mut core::str::Chars) -> Result<Self, nanoserde::DeRonErr> { Ok(P4View(DeRon::de_ron(s, i)?)) } }

#[derive(DeBin, DeJson, SerBin, SerJson)]
#[allow(clippy::all)] pub enum P5  {
    r#enum,
    // plain comment
Option(P3, String),
    F,
    #[doc = "attr docs"]
Qux {
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
some_: core::option::Option<LinkedList<i64>>,
/** block docs */
s: core::option::Option<P1>,
#[allow(dead_code)]
r: std::vec::Vec<[i16; 3]>,
skip: i8
},
    // plain comment
camelCase(P1),
}
impl Subject for P5 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P5", variants: &[
        VariantDef { name: "enum", json: "enum", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Option", json: "Option", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <P3 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "", json: "", ron: "", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] },
        VariantDef { name: "F", json: "F", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Qux", json: "Qux", kind: Kind::Named, fields: &[FieldDef { name: "some_", json: "some_", ron: "some_", ty: <core::option::Option<LinkedList<i64>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <core::option::Option<LinkedList<i64>> as Default>::default().to_val()) }, FieldDef { name: "s", json: "s", ron: "s", ty: <core::option::Option<P1> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <core::option::Option<P1> as Default>::default().to_val()) }, FieldDef { name: "r", json: "r", ron: "r", ty: <std::vec::Vec<[i16; 3]> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::vec::Vec<[i16; 3]> as Default>::default().to_val()) }, FieldDef { name: "skip", json: "skip", ron: "skip", ty: <i8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i8 as Default>::default().to_val()) }] },
        VariantDef { name: "camelCase", json: "camelCase", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <P1 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::r#enum, 1 => Self::Option(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), 2 => Self::F, 3 => Self::Qux { some_: Subject::from_val(&x_[0]), s: Subject::from_val(&x_[1]), r: Subject::from_val(&x_[2]), skip: Subject::from_val(&x_[3]) }, 4 => Self::camelCase(Subject::from_val(&x_[0])), _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::r#enum => Val::Enum(0, vec![]), Self::Option(b0, b1) => Val::Enum(1, vec![b0.to_val(), b1.to_val()]), Self::F => Val::Enum(2, vec![]), Self::Qux { some_: b0, s: b1, r: b2, skip: b3 } => Val::Enum(3, vec![b0.to_val(), b1.to_val(), b2.to_val(), b3.to_val()]), Self::camelCase(b0) => Val::Enum(4, vec![b0.to_val()]), } }
}


#[derive(DeJson, SerJson)]
#[allow(unused, non_snake_case)]
pub struct P6  {
    pub(super) none_: std::vec::Vec<P1>,
    #[allow(unused, non_snake_case)]
pub(crate) m48: i64,
    /** block docs */
int64: LinkedList<HashMap<i32, f32>>,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
#[nserde(rename = r#"a.b"#)]
#[allow(dead_code)]
pub r1: std::collections::HashMap<u16, Option<u16>>,
    #[nserde(skip)]
#[allow(unused, non_snake_case)]
pub q5: u8,
    #[nserde(proxy = "XP6_1")]
#[nserde(default_with = "dflt_6_1")]
#[allow(dead_code)]
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
pub u88: WP6_0,
    /** block docs */
pub(super) String_: P4,
    pub(crate) v3: [P4; 3],
}
impl Subject for P6  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P6", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "none_", json: "none_", ron: "none_", ty: <std::vec::Vec<P1> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::vec::Vec<P1> as Default>::default().to_val()) },
        FieldDef { name: "m48", json: "m48", ron: "m48", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) },
        FieldDef { name: "int64", json: "int64", ron: "int64", ty: <LinkedList<HashMap<i32, f32>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <LinkedList<HashMap<i32, f32>> as Default>::default().to_val()) },
        FieldDef { name: "r1", json: "a.b", ron: "a.b", ty: <std::collections::HashMap<u16, Option<u16>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::collections::HashMap<u16, Option<u16>> as Default>::default().to_val()) },
        FieldDef { name: "q5", json: "q5", ron: "q5", ty: <u8 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "u88", json: "u88", ron: "u88", ty: <WP6_0 as Subject>::ty, skip: false, dflt: Dflt::Value(|| dflt_6_1().to_val()), is_opt: false, null_none: false, type_default: Some(|| <WP6_0 as Default>::default().to_val()) },
        FieldDef { name: "String_", json: "String_", ron: "String_", ty: <P4 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "v3", json: "v3", ron: "v3", ty: <[P4; 3] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P6 { none_: Subject::from_val(&x[0]), m48: Subject::from_val(&x[1]), int64: Subject::from_val(&x[2]), r1: Subject::from_val(&x[3]), q5: Subject::from_val(&x[4]), u88: Subject::from_val(&x[5]), String_: Subject::from_val(&x[6]), v3: Subject::from_val(&x[7]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.none_.to_val(), self.m48.to_val(), self.int64.to_val(), self.r1.to_val(), self.q5.to_val(), self.u88.to_val(), self.String_.to_val(), self.v3.to_val()]) }
}
#[derive(SerJson, DeJson)]
 pub struct XP6_1 { pub inner: P5, pub more: bool }
impl Subject for XP6_1  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "XP6_1", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "inner", json: "inner", ron: "inner", ty: <P5 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "more", json: "more", ron: "more", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); XP6_1 { inner: Subject::from_val(&x[0]), more: Subject::from_val(&x[1]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.inner.to_val(), self.more.to_val()]) }
}
pub struct WP6_0(pub Val);
impl Default for WP6_0 { fn default() -> Self { WP6_0(vcore::gen::sample::<XP6_1>(106820952)) } }
impl Subject for WP6_0 { const TY: TyRef = <XP6_1 as Subject>::TY; fn from_val(v: &Val) -> Self { WP6_0(v.clone()) } fn to_val(&self) -> Val { self.0.clone() } }
impl From<&WP6_0> for XP6_1 { fn from(x: &WP6_0) -> Self { Subject::from_val(&x.0) } }
impl From<&XP6_1> for WP6_0 { fn from(x: &XP6_1) -> Self { WP6_0(x.to_val()) } }
fn dflt_6_1() -> WP6_0 { <WP6_0 as Subject>::from_val(&vcore::gen::sample::<WP6_0>(579306546)) }

#[derive(nanoserde::SerBin, nanoserde::DeBin, nanoserde::DeJson, nanoserde::SerJson)]
 pub struct P7Px { via: std::vec::Vec<core::option::Option<f64>>, flag: bool }
impl Subject for P7Px  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P7Px", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "via", json: "via", ron: "via", ty: <std::vec::Vec<core::option::Option<f64>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::vec::Vec<core::option::Option<f64>> as Default>::default().to_val()) },
        FieldDef { name: "flag", json: "flag", ron: "flag", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P7Px { via: Subject::from_val(&x[0]), flag: Subject::from_val(&x[1]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.via.to_val(), self.flag.to_val()]) }
}
#[derive(nanoserde::SerBin, nanoserde::DeBin, nanoserde::DeJson, nanoserde::SerJson)]
 #[nserde(proxy = "P7Px")]
pub struct P7 { hidden: Val }
impl Subject for P7 { const TY: TyRef = <P7Px as Subject>::TY; fn from_val(v: &Val) -> Self { let v = v.clone(); P7 { hidden: v } } fn to_val(&self) -> Val { self.hidden.clone() } }
impl From<&P7> for P7Px { fn from(x: &P7) -> Self { Subject::from_val(&x.hidden) } }
impl From<&P7Px> for P7 { fn from(x: &P7Px) -> Self { let v = x.to_val(); P7 { hidden: v } } }

#[derive(DeRon, SerRon, Eq, Ord, DeBin, Hash, PartialEq, SerBin, PartialOrd, SerJson, Default)]
#[derive(DeJson)]
#[allow(clippy::all)] pub enum P8  {
    #[default]
Self_,
    #[nserde(rename = r#"x "#)]
#[doc = "attr docs"]
X3,
    String
}
impl Subject for P8 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P8", variants: &[
        VariantDef { name: "Self_", json: "Self_", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "X3", json: "x ", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "String", json: "String", kind: Kind::Unit, fields: &[] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::Self_, 1 => Self::X3, 2 => Self::String, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::Self_ => Val::Enum(0, vec![]), Self::X3 => Val::Enum(1, vec![]), Self::String => Val::Enum(2, vec![]), } }
}


#[derive(SerJson, DeJson)]
 pub struct P9Px { via: std::option::Option<std::vec::Vec<f32>>, flag: bool }
impl Subject for P9Px  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P9Px", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "via", json: "via", ron: "via", ty: <std::option::Option<std::vec::Vec<f32>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <std::option::Option<std::vec::Vec<f32>> as Default>::default().to_val()) },
        FieldDef { name: "flag", json: "flag", ron: "flag", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P9Px { via: Subject::from_val(&x[0]), flag: Subject::from_val(&x[1]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.via.to_val(), self.flag.to_val()]) }
}
#[derive(SerJson, DeJson)]
 #[nserde(proxy = "P9Px")]
pub struct P9 (Val);
impl Subject for P9 { const TY: TyRef = <P9Px as Subject>::TY; fn from_val(v: &Val) -> Self { let v = v.clone(); P9(v) } fn to_val(&self) -> Val { self.0.clone() } }
impl From<&P9> for P9Px { fn from(x: &P9) -> Self { Subject::from_val(&x.0) } }
impl From<&P9Px> for P9 { fn from(x: &P9Px) -> Self { let v = x.to_val(); P9(v) } }

#[derive(DeRon, SerRon, DeBin, SerJson, DeJson, SerBin)]
// plain comment
pub(crate) struct P10  {
    // plain comment
pub(crate) ser_json: ((f64, Duration), std::collections::HashMap<bool, Duration>, u16, P8),
    #[nserde(rename = "f0")]
pub x: u64,
    #[doc = "attr docs"]
pub(crate) last: [P4; LEN],
    /** block docs */
#[nserde(serialize_none_as_null)]
pub(super) o67: std::option::Option<[u64; 2]>,
    #[allow(unused, non_snake_case)]
pub default: i32,
}
impl Subject for P10  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P10", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "ser_json", json: "ser_json", ron: "ser_json", ty: <((f64, Duration), std::collections::HashMap<bool, Duration>, u16, P8) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <((f64, Duration), std::collections::HashMap<bool, Duration>, u16, P8) as Default>::default().to_val()) },
        FieldDef { name: "x", json: "f0", ron: "f0", ty: <u64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u64 as Default>::default().to_val()) },
        FieldDef { name: "last", json: "last", ron: "last", ty: <[P4; LEN] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "o67", json: "o67", ron: "o67", ty: <std::option::Option<[u64; 2]> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <std::option::Option<[u64; 2]> as Default>::default().to_val()) },
        FieldDef { name: "default", json: "default", ron: "default", ty: <i32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i32 as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P10 { ser_json: Subject::from_val(&x[0]), x: Subject::from_val(&x[1]), last: Subject::from_val(&x[2]), o67: Subject::from_val(&x[3]), default: Subject::from_val(&x[4]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.ser_json.to_val(), self.x.to_val(), self.last.to_val(), self.o67.to_val(), self.default.to_val()]) }
}


/** block docs */
#[derive(DeBin, SerBin, Default)]
pub struct P11  {
    h72: f64,
    #[allow(unused, non_snake_case)]
u73: Duration,
    #[doc = "attr docs"]
pub long_field_name_that_goes_on_and_on_and_on_and_does_not_stop_here: std::option::Option<i64>,
}
impl Subject for P11  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P11", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "h72", json: "h72", ron: "h72", ty: <f64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f64 as Default>::default().to_val()) },
        FieldDef { name: "u73", json: "u73", ron: "u73", ty: <Duration as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Duration as Default>::default().to_val()) },
        FieldDef { name: "long_field_name_that_goes_on_and_on_and_on_and_does_not_stop_here", json: "long_field_name_that_goes_on_and_on_and_on_and_does_not_stop_here", ron: "long_field_name_that_goes_on_and_on_and_on_and_does_not_stop_here", ty: <std::option::Option<i64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <std::option::Option<i64> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P11 { h72: Subject::from_val(&x[0]), u73: Subject::from_val(&x[1]), long_field_name_that_goes_on_and_on_and_on_and_does_not_stop_here: Subject::from_val(&x[2]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.h72.to_val(), self.u73.to_val(), self.long_field_name_that_goes_on_and_on_and_on_and_does_not_stop_here.to_val()]) }
}


#[derive(DeRon, SerBin, DeJson, SerJson, DeBin, SerRon)]
// plain comment
#[allow(clippy::all)] pub(in crate) enum P12  {
    South(core::option::Option<<Alias<Vec<u8>> as self::Assoc>::Ty>, HashSet<Box<i64>>,),
}
impl Subject for P12 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P12", variants: &[
        VariantDef { name: "South", json: "South", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <core::option::Option<<Alias<Vec<u8>> as self::Assoc>::Ty> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <core::option::Option<<Alias<Vec<u8>> as self::Assoc>::Ty> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <HashSet<Box<i64>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <HashSet<Box<i64>> as Default>::default().to_val()) }] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::South(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::South(b0, b1) => Val::Enum(0, vec![b0.to_val(), b1.to_val()]), } }
}


#[derive(DeJson)]
#[derive(SerJson)]
#[allow(dead_code)]
#[allow(clippy::all)] pub enum P13  {
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
NULL {
#[nserde(default_with = "self::dflt_13_0", rename = "{}")]
k99: i8,
#[allow(unused, non_snake_case)]
#[nserde(proxy = "XP13_2")]
#[cfg(all())]
#[nserde(rename = r#"NULL"#)]
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
f: Option<WP13_1>,
},
    North,
    r#in(Option<P7>, Option<f64>, Option<P9>, // plain comment
(Vec<u8>, Vec<f64>), Option<Vec<[f64; 3]>>),
    #[allow(unused, non_snake_case)]
Self_(),
    true_(Option<HashSet<u64>>),
    #[doc = "attr docs"]
H(P3),
    #[nserde(rename = "nan",)]
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
lower(Option<Duration>,),
}
impl Subject for P13 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P13", variants: &[
        VariantDef { name: "NULL", json: "NULL", kind: Kind::Named, fields: &[FieldDef { name: "k99", json: "{}", ron: "{}", ty: <i8 as Subject>::ty, skip: false, dflt: Dflt::Value(|| dflt_13_0().to_val()), is_opt: false, null_none: false, type_default: Some(|| <i8 as Default>::default().to_val()) }, FieldDef { name: "f", json: "NULL", ron: "NULL", ty: <Option<WP13_1> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<WP13_1> as Default>::default().to_val()) }] },
        VariantDef { name: "North", json: "North", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "in", json: "in", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <Option<P7> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<P7> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <Option<P9> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<P9> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <(Vec<u8>, Vec<f64>) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(Vec<u8>, Vec<f64>) as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <Option<Vec<[f64; 3]>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<[f64; 3]>> as Default>::default().to_val()) }] },
        VariantDef { name: "Self_", json: "Self_", kind: Kind::Tuple, fields: &[] },
        VariantDef { name: "true_", json: "true_", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <Option<HashSet<u64>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<HashSet<u64>> as Default>::default().to_val()) }] },
        VariantDef { name: "H", json: "H", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <P3 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] },
        VariantDef { name: "lower", json: "nan", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <Option<Duration> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Duration> as Default>::default().to_val()) }] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::NULL { k99: Subject::from_val(&x_[0]), f: Subject::from_val(&x_[1]) }, 1 => Self::North, 2 => Self::r#in(Subject::from_val(&x_[0]), Subject::from_val(&x_[1]), Subject::from_val(&x_[2]), Subject::from_val(&x_[3]), Subject::from_val(&x_[4])), 3 => Self::Self_(), 4 => Self::true_(Subject::from_val(&x_[0])), 5 => Self::H(Subject::from_val(&x_[0])), 6 => Self::lower(Subject::from_val(&x_[0])), _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::NULL { k99: b0, f: b1 } => Val::Enum(0, vec![b0.to_val(), b1.to_val()]), Self::North => Val::Enum(1, vec![]), Self::r#in(b0, b1, b2, b3, b4) => Val::Enum(2, vec![b0.to_val(), b1.to_val(), b2.to_val(), b3.to_val(), b4.to_val()]), Self::Self_() => Val::Enum(3, vec![]), Self::true_(b0) => Val::Enum(4, vec![b0.to_val()]), Self::H(b0) => Val::Enum(5, vec![b0.to_val()]), Self::lower(b0) => Val::Enum(6, vec![b0.to_val()]), } }
}
fn dflt_13_0() -> i8 { <i8 as Subject>::from_val(&vcore::gen::sample::<i8>(221759922)) }
#[derive(SerJson)]
#[derive(DeJson)]
 pub struct XP13_2 { pub inner: [bool; 0x3], pub more: bool }
impl Subject for XP13_2  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "XP13_2", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "inner", json: "inner", ron: "inner", ty: <[bool; 0x3] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "more", json: "more", ron: "more", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); XP13_2 { inner: Subject::from_val(&x[0]), more: Subject::from_val(&x[1]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.inner.to_val(), self.more.to_val()]) }
}
pub struct WP13_1(pub Val);
impl Default for WP13_1 { fn default() -> Self { WP13_1(vcore::gen::sample::<XP13_2>(460033567)) } }
impl Subject for WP13_1 { const TY: TyRef = <XP13_2 as Subject>::TY; fn from_val(v: &Val) -> Self { WP13_1(v.clone()) } fn to_val(&self) -> Val { self.0.clone() } }
impl From<&WP13_1> for XP13_2 { fn from(x: &WP13_1) -> Self { Subject::from_val(&x.0) } }
impl From<&XP13_2> for WP13_1 { fn from(x: &XP13_2) -> Self { WP13_1(x.to_val()) } }

#[derive(DeJson, SerJson)]
#[doc = "attr docs"]
pub struct P14  {
    #[nserde(proxy = "XP14_1")]
#[nserde(default_with = "dflt_14_1")]
#[cfg(all())]
pub field: std::option::Option<WP14_0>,
    #[nserde(skip,)]
#[allow(dead_code)]
pub q33: LinkedList<Kb<{ 1 > 2 }>>,
    #[cfg(all())]
pub(crate) s18: Box<P13>,
    #[doc = "attr docs"]
#[nserde(default_with = "self::dflt_14_2")]
a__b: f32,
    #[nserde(rename = r"label")]
pub(super) n76: i8,
    pub msg: P13,
    /** block docs */
pub std_: Vec<P14>,
    #[allow(dead_code)]
#[nserde(default_with = "dflt_14_4", proxy = "XP14_4",)]
pub(crate) r45: WP14_3,
    #[doc = "attr docs"]
#[nserde(proxy = "XP14_6")]
#[allow(dead_code)]
pub t66: WP14_5,
}
impl Subject for P14  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P14", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "field", json: "field", ron: "field", ty: <std::option::Option<WP14_0> as Subject>::ty, skip: false, dflt: Dflt::Value(|| dflt_14_1().to_val()), is_opt: true, null_none: false, type_default: Some(|| <std::option::Option<WP14_0> as Default>::default().to_val()) },
        FieldDef { name: "q33", json: "q33", ron: "q33", ty: <LinkedList<Kb<{ 1 > 2 }>> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <LinkedList<Kb<{ 1 > 2 }>> as Default>::default().to_val()) },
        FieldDef { name: "s18", json: "s18", ron: "s18", ty: <Box<P13> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "a__b", json: "a__b", ron: "a__b", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::Value(|| dflt_14_2().to_val()), is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) },
        FieldDef { name: "n76", json: "label", ron: "label", ty: <i8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i8 as Default>::default().to_val()) },
        FieldDef { name: "msg", json: "msg", ron: "msg", ty: <P13 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "std_", json: "std_", ron: "std_", ty: <Vec<P14> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<P14> as Default>::default().to_val()) },
        FieldDef { name: "r45", json: "r45", ron: "r45", ty: <WP14_3 as Subject>::ty, skip: false, dflt: Dflt::Value(|| dflt_14_4().to_val()), is_opt: false, null_none: false, type_default: Some(|| <WP14_3 as Default>::default().to_val()) },
        FieldDef { name: "t66", json: "t66", ron: "t66", ty: <WP14_5 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <WP14_5 as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P14 { field: Subject::from_val(&x[0]), q33: Subject::from_val(&x[1]), s18: Subject::from_val(&x[2]), a__b: Subject::from_val(&x[3]), n76: Subject::from_val(&x[4]), msg: Subject::from_val(&x[5]), std_: Subject::from_val(&x[6]), r45: Subject::from_val(&x[7]), t66: Subject::from_val(&x[8]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.field.to_val(), self.q33.to_val(), self.s18.to_val(), self.a__b.to_val(), self.n76.to_val(), self.msg.to_val(), self.std_.to_val(), self.r45.to_val(), self.t66.to_val()]) }
}
#[derive(DeJson, SerJson)]
 pub struct XP14_1 { pub inner: P10, pub more: bool }
impl Subject for XP14_1  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "XP14_1", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "inner", json: "inner", ron: "inner", ty: <P10 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "more", json: "more", ron: "more", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); XP14_1 { inner: Subject::from_val(&x[0]), more: Subject::from_val(&x[1]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.inner.to_val(), self.more.to_val()]) }
}
pub struct WP14_0(pub Val);
impl Default for WP14_0 { fn default() -> Self { WP14_0(vcore::gen::sample::<XP14_1>(933322747)) } }
impl Subject for WP14_0 { const TY: TyRef = <XP14_1 as Subject>::TY; fn from_val(v: &Val) -> Self { WP14_0(v.clone()) } fn to_val(&self) -> Val { self.0.clone() } }
impl From<&WP14_0> for XP14_1 { fn from(x: &WP14_0) -> Self { Subject::from_val(&x.0) } }
impl From<&XP14_1> for WP14_0 { fn from(x: &XP14_1) -> Self { WP14_0(x.to_val()) } }
fn dflt_14_1() -> std::option::Option<WP14_0> { <std::option::Option<WP14_0> as Subject>::from_val(&vcore::gen::sample::<std::option::Option<WP14_0>>(42919849)) }
fn dflt_14_2() -> f32 { <f32 as Subject>::from_val(&vcore::gen::sample::<f32>(284707768)) }
#[derive(DeJson, SerJson)]
 pub struct XP14_4 { pub inner: Duration, pub more: bool }
impl Subject for XP14_4  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "XP14_4", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "inner", json: "inner", ron: "inner", ty: <Duration as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Duration as Default>::default().to_val()) },
        FieldDef { name: "more", json: "more", ron: "more", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); XP14_4 { inner: Subject::from_val(&x[0]), more: Subject::from_val(&x[1]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.inner.to_val(), self.more.to_val()]) }
}
pub struct WP14_3(pub Val);
impl Default for WP14_3 { fn default() -> Self { WP14_3(vcore::gen::sample::<XP14_4>(770397350)) } }
impl Subject for WP14_3 { const TY: TyRef = <XP14_4 as Subject>::TY; fn from_val(v: &Val) -> Self { WP14_3(v.clone()) } fn to_val(&self) -> Val { self.0.clone() } }
impl From<&WP14_3> for XP14_4 { fn from(x: &WP14_3) -> Self { Subject::from_val(&x.0) } }
impl From<&XP14_4> for WP14_3 { fn from(x: &XP14_4) -> Self { WP14_3(x.to_val()) } }
fn dflt_14_4() -> WP14_3 { <WP14_3 as Subject>::from_val(&vcore::gen::sample::<WP14_3>(732798680)) }
#[derive(SerJson, DeJson)]
 pub struct XP14_6 { pub inner: (P6, Vec<i16>,), pub more: bool }
impl Subject for XP14_6  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "XP14_6", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "inner", json: "inner", ron: "inner", ty: <(P6, Vec<i16>,) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "more", json: "more", ron: "more", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); XP14_6 { inner: Subject::from_val(&x[0]), more: Subject::from_val(&x[1]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.inner.to_val(), self.more.to_val()]) }
}
pub struct WP14_5(pub Val);
impl Default for WP14_5 { fn default() -> Self { WP14_5(vcore::gen::sample::<XP14_6>(990645858)) } }
impl Subject for WP14_5 { const TY: TyRef = <XP14_6 as Subject>::TY; fn from_val(v: &Val) -> Self { WP14_5(v.clone()) } fn to_val(&self) -> Val { self.0.clone() } }
impl From<&WP14_5> for XP14_6 { fn from(x: &WP14_5) -> Self { Subject::from_val(&x.0) } }
impl From<&XP14_6> for WP14_5 { fn from(x: &XP14_6) -> Self { WP14_5(x.to_val()) } }

#[derive(DeBin, SerBin)]
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
#[allow(clippy::all)] pub(in crate) enum P15  {
    /** block docs */
#[nserde(rename = r#"West"#)]
String {
#[doc = "attr docs"]
s: std::option::Option<i128>,
deserialize_ron: P8,
NULL: usize,
#[allow(unused, non_snake_case)]
line: Vec<P3>,
},
    #[nserde(rename = r#"{}"#)]
// plain comment
B(Box<P4>,),
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
SHOUT {
/** block docs */
ser_json: u16,
},
    // plain comment
Baz(/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
std::option::Option<P4>),
    Some_,
}
impl Subject for P15 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P15", variants: &[
        VariantDef { name: "String", json: "West", kind: Kind::Named, fields: &[FieldDef { name: "s", json: "s", ron: "s", ty: <std::option::Option<i128> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <std::option::Option<i128> as Default>::default().to_val()) }, FieldDef { name: "deserialize_ron", json: "deserialize_ron", ron: "deserialize_ron", ty: <P8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <P8 as Default>::default().to_val()) }, FieldDef { name: "NULL", json: "NULL", ron: "NULL", ty: <usize as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <usize as Default>::default().to_val()) }, FieldDef { name: "line", json: "line", ron: "line", ty: <Vec<P3> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<P3> as Default>::default().to_val()) }] },
        VariantDef { name: "B", json: "{}", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <Box<P4> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] },
        VariantDef { name: "SHOUT", json: "SHOUT", kind: Kind::Named, fields: &[FieldDef { name: "ser_json", json: "ser_json", ron: "ser_json", ty: <u16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u16 as Default>::default().to_val()) }] },
        VariantDef { name: "Baz", json: "Baz", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <std::option::Option<P4> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <std::option::Option<P4> as Default>::default().to_val()) }] },
        VariantDef { name: "Some_", json: "Some_", kind: Kind::Unit, fields: &[] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::String { s: Subject::from_val(&x_[0]), deserialize_ron: Subject::from_val(&x_[1]), NULL: Subject::from_val(&x_[2]), line: Subject::from_val(&x_[3]) }, 1 => Self::B(Subject::from_val(&x_[0])), 2 => Self::SHOUT { ser_json: Subject::from_val(&x_[0]) }, 3 => Self::Baz(Subject::from_val(&x_[0])), 4 => Self::Some_, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::String { s: b0, deserialize_ron: b1, NULL: b2, line: b3 } => Val::Enum(0, vec![b0.to_val(), b1.to_val(), b2.to_val(), b3.to_val()]), Self::B(b0) => Val::Enum(1, vec![b0.to_val()]), Self::SHOUT { ser_json: b0 } => Val::Enum(2, vec![b0.to_val()]), Self::Baz(b0) => Val::Enum(3, vec![b0.to_val()]), Self::Some_ => Val::Enum(4, vec![]), } }
}


#[derive(SerBin, DeRon, Default, SerJson, DeJson, DeBin, SerRon)]
#[doc = "attr docs"]
pub struct P16(pub(super) Box<Option<Duration>>, #[doc = "attr docs"]
pub P8,) ;
impl Subject for P16  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P16", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <Box<Option<Duration>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Box<Option<Duration>> as Default>::default().to_val()) },
        FieldDef { name: "", json: "", ron: "", ty: <P8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <P8 as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P16(Subject::from_val(&x[0]), Subject::from_val(&x[1])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val(), self.1.to_val()]) }
}


#[derive(SerRon, DeBin, SerJson, DeRon, SerBin, DeJson)]
// plain comment
#[nserde(default)]
// plain comment
pub struct P17  {
    #[doc = "attr docs"]
#[nserde(serialize_none_as_null,)]
pub f76: Option<P3>,
}
impl Subject for P17  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P17", kind: Kind::Named, transparent: false, container_default: true, fields: &[
        FieldDef { name: "f76", json: "f76", ron: "f76", ty: <Option<P3> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<P3> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P17 { f76: Subject::from_val(&x[0]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f76.to_val()]) }
}


#[derive(SerJson, SerRon, DeBin, DeJson, SerBin, DeRon)]
/** block docs */
pub struct P18  {
    // plain comment
#[nserde(default_with = "self::dflt_18_0")]
// plain comment
_0x: bool,
}
impl Subject for P18  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P18", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "_0x", json: "_0x", ron: "_0x", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::Value(|| dflt_18_0().to_val()), is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P18 { _0x: Subject::from_val(&x[0]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self._0x.to_val()]) }
}
fn dflt_18_0() -> bool { <bool as Subject>::from_val(&vcore::gen::sample::<bool>(723051855)) }

#[derive(Hash, PartialOrd, PartialEq, Default, nanoserde::SerRon, Ord, nanoserde::DeRon, Eq)]
#[cfg(all())]
pub struct P19(#[doc = "attr docs"]
pub Vec<Vec<String>>,) ;
impl Subject for P19  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P19", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <Vec<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<Vec<String>> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P19(Subject::from_val(&x[0])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val()]) }
}


macro_rules! mk_P20 { ($a0:meta, $a1:vis,) => {
#[derive(DeJson, SerRon, SerJson, DeRon, SerBin, DeBin)]
// plain comment
#[$a0]
$a1 struct P20  {

}
} }
mk_P20!(nserde(default,), ,);
impl Subject for P20  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P20", kind: Kind::Named, transparent: false, container_default: true, fields: &[
        ] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P20 {  } }
    fn to_val(&self) -> Val { Val::Rec(vec![]) }
}


#[derive(DeBin)]
#[derive(SerBin, DeJson, SerRon, DeRon, SerJson)]
#[nserde(default,)]
pub(in crate) struct P21  {
    pub c67: u32,
    #[allow(unused, non_snake_case)]
#[nserde(default)]
#[allow(dead_code)]
pub(super) f1: core::option::Option<i8>,
    // plain comment
pub d45: Option<Box<P21>>,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
pub(super) a_: i16,
    pub X: Vec<P21>,
    pub d1: std::vec::Vec<(u64, i64, i32, i64)>,
}
impl Subject for P21  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P21", kind: Kind::Named, transparent: false, container_default: true, fields: &[
        FieldDef { name: "c67", json: "c67", ron: "c67", ty: <u32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u32 as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "f1", ron: "f1", ty: <core::option::Option<i8> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <core::option::Option<i8> as Default>::default().to_val()) },
        FieldDef { name: "d45", json: "d45", ron: "d45", ty: <Option<Box<P21>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Box<P21>> as Default>::default().to_val()) },
        FieldDef { name: "a_", json: "a_", ron: "a_", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) },
        FieldDef { name: "X", json: "X", ron: "X", ty: <Vec<P21> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<P21> as Default>::default().to_val()) },
        FieldDef { name: "d1", json: "d1", ron: "d1", ty: <std::vec::Vec<(u64, i64, i32, i64)> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::vec::Vec<(u64, i64, i32, i64)> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P21 { c67: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), d45: Subject::from_val(&x[2]), a_: Subject::from_val(&x[3]), X: Subject::from_val(&x[4]), d1: Subject::from_val(&x[5]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.c67.to_val(), self.f1.to_val(), self.d45.to_val(), self.a_.to_val(), self.X.to_val(), self.d1.to_val()]) }
}


#[derive(DeJson, SerJson)]
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
pub struct P22(#[cfg(all())]
pub(crate) P3, pub std::collections::BTreeSet<u32>,) ;
impl Subject for P22  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P22", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <P3 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "", json: "", ron: "", ty: <std::collections::BTreeSet<u32> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::collections::BTreeSet<u32> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P22(Subject::from_val(&x[0]), Subject::from_val(&x[1])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val(), self.1.to_val()]) }
}


/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
#[derive(SerJson, DeRon, DeBin, SerBin, SerRon, Default, DeJson)]
pub struct P23  {
    pub b: ::std::option::Option<i64>,
    /** block docs */
q65: u8,
    #[cfg(all())]
pub(super) b68: Vec<P18>,
    #[cfg(all())]
#[nserde(default)]
#[nserde(rename = "skip")]
// plain comment
pub proxy: i16,
    #[nserde(rename = r#"error"#, default)]
pub j12: u32,
    /** block docs */
pub result: BTreeMap<String, P23>,
    pub(crate) b95: f64,
    pub(crate) len: std::vec::Vec<P12>,
    #[allow(dead_code)]
none: usize,
}
impl Subject for P23  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P23", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "b", json: "b", ron: "b", ty: <::std::option::Option<i64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <::std::option::Option<i64> as Default>::default().to_val()) },
        FieldDef { name: "q65", json: "q65", ron: "q65", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "b68", json: "b68", ron: "b68", ty: <Vec<P18> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<P18> as Default>::default().to_val()) },
        FieldDef { name: "proxy", json: "skip", ron: "skip", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) },
        FieldDef { name: "j12", json: "error", ron: "error", ty: <u32 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <u32 as Default>::default().to_val()) },
        FieldDef { name: "result", json: "result", ron: "result", ty: <BTreeMap<String, P23> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, P23> as Default>::default().to_val()) },
        FieldDef { name: "b95", json: "b95", ron: "b95", ty: <f64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f64 as Default>::default().to_val()) },
        FieldDef { name: "len", json: "len", ron: "len", ty: <std::vec::Vec<P12> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::vec::Vec<P12> as Default>::default().to_val()) },
        FieldDef { name: "none", json: "none", ron: "none", ty: <usize as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <usize as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P23 { b: Subject::from_val(&x[0]), q65: Subject::from_val(&x[1]), b68: Subject::from_val(&x[2]), proxy: Subject::from_val(&x[3]), j12: Subject::from_val(&x[4]), result: Subject::from_val(&x[5]), b95: Subject::from_val(&x[6]), len: Subject::from_val(&x[7]), none: Subject::from_val(&x[8]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.b.to_val(), self.q65.to_val(), self.b68.to_val(), self.proxy.to_val(), self.j12.to_val(), self.result.to_val(), self.b95.to_val(), self.len.to_val(), self.none.to_val()]) }
}


#[derive(SerJson, SerRon, DeJson, DeBin, SerBin, DeRon)]
#[cfg(all())]
#[nserde(crate = "nanoserde")]
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
pub struct P24(pub LinkedList<usize>,) ;
impl Subject for P24  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P24", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <LinkedList<usize> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <LinkedList<usize> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P24(Subject::from_val(&x[0])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val()]) }
}


#[derive(SerJson, DeBin, SerBin, DeRon, SerRon, DeJson, PartialEq, Default, PartialOrd, Ord, Hash, Eq)]
#[allow(clippy::all)] pub enum P25  {
    #[default]
Bar,
}
impl Subject for P25 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P25", variants: &[
        VariantDef { name: "Bar", json: "Bar", kind: Kind::Unit, fields: &[] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::Bar, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::Bar => Val::Enum(0, vec![]), } }
}


#[derive(DeRon, SerBin, DeJson, DeBin, SerJson, SerRon)]
#[doc = "attr docs"]
#[allow(clippy::all)] pub enum P26<T: DeRonLike + MySerJson, const N: usize, const Q: bool = true> where T: Clone, {
    #[allow(unused, non_snake_case)]
Unit([u8; N]),
    #[allow(dead_code)]
camelCase,
    /** block docs */
E(/** block docs */
([u8; N], [bool; 4],),),
    SHOUT(#[cfg(all())]
f64),
    UseT(Vec<T>)
}
impl<T: DeRonLike + MySerJson + Clone + Subject, const N: usize, const Q: bool> Subject for P26<T, N, Q> {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P26", variants: &[
        VariantDef { name: "Unit", json: "Unit", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <[u8; N] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] },
        VariantDef { name: "camelCase", json: "camelCase", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "E", json: "E", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <([u8; N], [bool; 4],) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] },
        VariantDef { name: "SHOUT", json: "SHOUT", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <f64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f64 as Default>::default().to_val()) }] },
        VariantDef { name: "UseT", json: "UseT", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <Vec<T> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::Unit(Subject::from_val(&x_[0])), 1 => Self::camelCase, 2 => Self::E(Subject::from_val(&x_[0])), 3 => Self::SHOUT(Subject::from_val(&x_[0])), 4 => Self::UseT(Subject::from_val(&x_[0])), _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::Unit(b0) => Val::Enum(0, vec![b0.to_val()]), Self::camelCase => Val::Enum(1, vec![]), Self::E(b0) => Val::Enum(2, vec![b0.to_val()]), Self::SHOUT(b0) => Val::Enum(3, vec![b0.to_val()]), Self::UseT(b0) => Val::Enum(4, vec![b0.to_val()]), } }
}


#[derive(DeRon, SerRon, SerBin, DeBin, SerJson, DeJson)]
pub struct P27(pub [P21; 3usize], // plain comment
pub(super) Box<P25>) ;
impl Subject for P27  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P27", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <[P21; 3usize] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "", json: "", ron: "", ty: <Box<P25> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Box<P25> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P27(Subject::from_val(&x[0]), Subject::from_val(&x[1])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val(), self.1.to_val()]) }
}


/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
#[derive(DeJson, SerBin, SerRon, DeRon, SerJson, DeBin)]
pub struct P28<Item: MySerJson, const N: usize = 2, const Q: bool = true>  {
    #[cfg(all())]
pub(super) none_: bool,
    #[nserde(rename = "inf")]
#[allow(unused, non_snake_case)]
pub(crate) o57: Item,
    pub col: Kb<true>,
    #[allow(dead_code)]
y3: std::vec::Vec<u32>,
    #[nserde(rename = r#"_a"#,)]
pub(crate) o35: [Item; N]
}
impl<Item: MySerJson + Subject, const N: usize, const Q: bool> Subject for P28<Item, N, Q>  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P28", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "none_", json: "none_", ron: "none_", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) },
        FieldDef { name: "o57", json: "inf", ron: "inf", ty: <Item as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "col", json: "col", ron: "col", ty: <Kb<true> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Kb<true> as Default>::default().to_val()) },
        FieldDef { name: "y3", json: "y3", ron: "y3", ty: <std::vec::Vec<u32> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::vec::Vec<u32> as Default>::default().to_val()) },
        FieldDef { name: "o35", json: "_a", ron: "_a", ty: <[Item; N] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P28 { none_: Subject::from_val(&x[0]), o57: Subject::from_val(&x[1]), col: Subject::from_val(&x[2]), y3: Subject::from_val(&x[3]), o35: Subject::from_val(&x[4]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.none_.to_val(), self.o57.to_val(), self.col.to_val(), self.y3.to_val(), self.o35.to_val()]) }
}


#[derive(DeRon, SerRon, SerBin, SerJson, DeBin, DeJson)]
#[cfg(all())]
#[allow(clippy::all)] pub(crate) enum P29  {
    True(#[cfg(all())]
i16, P26<String, 1, true>, P23, P21, Box<(i64, Duration,)>),
    String {

},
    West
}
impl Subject for P29 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P29", variants: &[
        VariantDef { name: "True", json: "True", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <P26<String, 1, true> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "", json: "", ron: "", ty: <P23 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <P23 as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <P21 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "", json: "", ron: "", ty: <Box<(i64, Duration,)> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Box<(i64, Duration,)> as Default>::default().to_val()) }] },
        VariantDef { name: "String", json: "String", kind: Kind::Named, fields: &[] },
        VariantDef { name: "West", json: "West", kind: Kind::Unit, fields: &[] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::True(Subject::from_val(&x_[0]), Subject::from_val(&x_[1]), Subject::from_val(&x_[2]), Subject::from_val(&x_[3]), Subject::from_val(&x_[4])), 1 => Self::String {  }, 2 => Self::West, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::True(b0, b1, b2, b3, b4) => Val::Enum(0, vec![b0.to_val(), b1.to_val(), b2.to_val(), b3.to_val(), b4.to_val()]), Self::String {  } => Val::Enum(1, vec![]), Self::West => Val::Enum(2, vec![]), } }
}


#[derive(nanoserde::DeBin, nanoserde::SerBin)]
 pub struct P30Px { via: P20, flag: bool }
impl Subject for P30Px  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P30Px", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "via", json: "via", ron: "via", ty: <P20 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "flag", json: "flag", ron: "flag", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P30Px { via: Subject::from_val(&x[0]), flag: Subject::from_val(&x[1]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.via.to_val(), self.flag.to_val()]) }
}
#[derive(nanoserde::DeBin, nanoserde::SerBin)]
 #[nserde(proxy = "P30Px")]
pub struct P30 (Val);
impl Subject for P30 { const TY: TyRef = <P30Px as Subject>::TY; fn from_val(v: &Val) -> Self { let v = v.clone(); P30(v) } fn to_val(&self) -> Val { self.0.clone() } }
impl From<&P30> for P30Px { fn from(x: &P30) -> Self { Subject::from_val(&x.0) } }
impl From<&P30Px> for P30 { fn from(x: &P30Px) -> Self { let v = x.to_val(); P30(v) } }

#[derive(DeBin, DeJson, SerBin, DeRon, Default, SerJson, SerRon)]
// plain comment
#[allow(clippy::all)] pub(crate) enum P31  {
    #[default]
Third,
    /** block docs */
Default {
x44: P8,
cur: LinkedList<P16>,
#[cfg(all())]
Ok: ::std::option::Option<inner::deeper::Word>,
#[nserde(default)]
// plain comment
unknown: P25,
},
    Baz,
    Bar {

},
    #[cfg(all())]
Struct,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
#[nserde(rename = r#"X1"#,)]
e {
// plain comment
#[nserde(rename = "error",)]
#[doc = "attr docs"]
list: (P12, Option<usize>, [i8; 2],),
},
    // plain comment
X2 {
#[cfg(all())]
r77: f64,
q48: Vec<P10>,
#[nserde(rename = "o2")]
f: i64
},
    #[nserde(rename = r#"SHOUT"#)]
#[doc = "attr docs"]
r#break(),
    #[doc = "attr docs"]
#[nserde(rename = "none")]
Tuple((Vec<bool>, P29, Option<u16>,), core::option::Option<P28<Vec<u16>, 3, true>>),
    #[doc = "attr docs"]
H(Kn<{ 1 - 3 }>, String,),
    #[allow(dead_code)]
None_,
    String,
}
impl Subject for P31 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P31", variants: &[
        VariantDef { name: "Third", json: "Third", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Default", json: "Default", kind: Kind::Named, fields: &[FieldDef { name: "x44", json: "x44", ron: "x44", ty: <P8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <P8 as Default>::default().to_val()) }, FieldDef { name: "cur", json: "cur", ron: "cur", ty: <LinkedList<P16> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <LinkedList<P16> as Default>::default().to_val()) }, FieldDef { name: "Ok", json: "Ok", ron: "Ok", ty: <::std::option::Option<inner::deeper::Word> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <::std::option::Option<inner::deeper::Word> as Default>::default().to_val()) }, FieldDef { name: "unknown", json: "unknown", ron: "unknown", ty: <P25 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <P25 as Default>::default().to_val()) }] },
        VariantDef { name: "Baz", json: "Baz", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Bar", json: "Bar", kind: Kind::Named, fields: &[] },
        VariantDef { name: "Struct", json: "Struct", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "e", json: "X1", kind: Kind::Named, fields: &[FieldDef { name: "list", json: "error", ron: "error", ty: <(P12, Option<usize>, [i8; 2],) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] },
        VariantDef { name: "X2", json: "X2", kind: Kind::Named, fields: &[FieldDef { name: "r77", json: "r77", ron: "r77", ty: <f64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f64 as Default>::default().to_val()) }, FieldDef { name: "q48", json: "q48", ron: "q48", ty: <Vec<P10> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<P10> as Default>::default().to_val()) }, FieldDef { name: "f", json: "o2", ron: "o2", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }] },
        VariantDef { name: "break", json: "SHOUT", kind: Kind::Tuple, fields: &[] },
        VariantDef { name: "Tuple", json: "none", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <(Vec<bool>, P29, Option<u16>,) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "", json: "", ron: "", ty: <core::option::Option<P28<Vec<u16>, 3, true>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <core::option::Option<P28<Vec<u16>, 3, true>> as Default>::default().to_val()) }] },
        VariantDef { name: "H", json: "H", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <Kn<{ 1 - 3 }> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Kn<{ 1 - 3 }> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] },
        VariantDef { name: "None_", json: "None_", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "String", json: "String", kind: Kind::Unit, fields: &[] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::Third, 1 => Self::Default { x44: Subject::from_val(&x_[0]), cur: Subject::from_val(&x_[1]), Ok: Subject::from_val(&x_[2]), unknown: Subject::from_val(&x_[3]) }, 2 => Self::Baz, 3 => Self::Bar {  }, 4 => Self::Struct, 5 => Self::e { list: Subject::from_val(&x_[0]) }, 6 => Self::X2 { r77: Subject::from_val(&x_[0]), q48: Subject::from_val(&x_[1]), f: Subject::from_val(&x_[2]) }, 7 => Self::r#break(), 8 => Self::Tuple(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), 9 => Self::H(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), 10 => Self::None_, 11 => Self::String, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::Third => Val::Enum(0, vec![]), Self::Default { x44: b0, cur: b1, Ok: b2, unknown: b3 } => Val::Enum(1, vec![b0.to_val(), b1.to_val(), b2.to_val(), b3.to_val()]), Self::Baz => Val::Enum(2, vec![]), Self::Bar {  } => Val::Enum(3, vec![]), Self::Struct => Val::Enum(4, vec![]), Self::e { list: b0 } => Val::Enum(5, vec![b0.to_val()]), Self::X2 { r77: b0, q48: b1, f: b2 } => Val::Enum(6, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::r#break() => Val::Enum(7, vec![]), Self::Tuple(b0, b1) => Val::Enum(8, vec![b0.to_val(), b1.to_val()]), Self::H(b0, b1) => Val::Enum(9, vec![b0.to_val(), b1.to_val()]), Self::None_ => Val::Enum(10, vec![]), Self::String => Val::Enum(11, vec![]), } }
}


#[derive(nanoserde::DeRon, nanoserde::DeBin, nanoserde::SerBin, nanoserde::DeJson, nanoserde::SerRon, nanoserde::SerJson)]
// plain comment
#[allow(clippy::all)] pub enum P32<Item: DeRonLike + MySerJson = u8> where Item: Marker, {
    South {
w90: String,
},
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
Default,
    #[allow(unused, non_snake_case)]
#[nserde(rename = r"Blue",)]
#[allow(dead_code)]
SHOUT,
    #[doc = "attr docs"]
E1(),
    #[allow(dead_code)]
Tuple,
    UseItem(Vec<Item>),
}
impl<Item: DeRonLike + MySerJson + Marker + Subject> Subject for P32<Item> {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P32", variants: &[
        VariantDef { name: "South", json: "South", kind: Kind::Named, fields: &[FieldDef { name: "w90", json: "w90", ron: "w90", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] },
        VariantDef { name: "Default", json: "Default", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "SHOUT", json: "Blue", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "E1", json: "E1", kind: Kind::Tuple, fields: &[] },
        VariantDef { name: "Tuple", json: "Tuple", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "UseItem", json: "UseItem", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <Vec<Item> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::South { w90: Subject::from_val(&x_[0]) }, 1 => Self::Default, 2 => Self::SHOUT, 3 => Self::E1(), 4 => Self::Tuple, 5 => Self::UseItem(Subject::from_val(&x_[0])), _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::South { w90: b0 } => Val::Enum(0, vec![b0.to_val()]), Self::Default => Val::Enum(1, vec![]), Self::SHOUT => Val::Enum(2, vec![]), Self::E1() => Val::Enum(3, vec![]), Self::Tuple => Val::Enum(4, vec![]), Self::UseItem(b0) => Val::Enum(5, vec![b0.to_val()]), } }
}


macro_rules! mk_P33 { ($a0:literal, $a1:ty, $a2:vis,) => {
#[derive(DeJson, SerBin, DeBin, DeRon, SerJson, SerRon)]
$a2 struct P33  {
    #[cfg(all())]
#[nserde(rename = $a0)]
// plain comment
value: $a1,
    pub(crate) c52: P26<String, 1, true>,
    #[allow(unused, non_snake_case)]
#[nserde(skip)]
a48: Duration,
}
} }
mk_P33!(r#"alloc_"#, f32, pub(crate),);
impl Subject for P33  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P33", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "value", json: "alloc_", ron: "alloc_", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) },
        FieldDef { name: "c52", json: "c52", ron: "c52", ty: <P26<String, 1, true> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "a48", json: "a48", ron: "a48", ty: <Duration as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Duration as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P33 { value: Subject::from_val(&x[0]), c52: Subject::from_val(&x[1]), a48: Subject::from_val(&x[2]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.value.to_val(), self.c52.to_val(), self.a48.to_val()]) }
}


#[derive(DeBin, DeRon, SerJson, DeJson, SerBin, SerRon)]
#[allow(clippy::all)] pub enum P34  {
    #[doc = "attr docs"]
F {
i: Duration,
#[nserde(default_with = "self::dflt_34_0")]
none_: Kb<true>,
deserialize_ron: u8
},
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
Second(std::collections::BTreeSet<bool>, #[doc = "attr docs"]
BTreeMap<u64, u8>)
}
impl Subject for P34 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P34", variants: &[
        VariantDef { name: "F", json: "F", kind: Kind::Named, fields: &[FieldDef { name: "i", json: "i", ron: "i", ty: <Duration as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Duration as Default>::default().to_val()) }, FieldDef { name: "none_", json: "none_", ron: "none_", ty: <Kb<true> as Subject>::ty, skip: false, dflt: Dflt::Value(|| dflt_34_0().to_val()), is_opt: false, null_none: false, type_default: Some(|| <Kb<true> as Default>::default().to_val()) }, FieldDef { name: "deserialize_ron", json: "deserialize_ron", ron: "deserialize_ron", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }] },
        VariantDef { name: "Second", json: "Second", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <std::collections::BTreeSet<bool> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::collections::BTreeSet<bool> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <BTreeMap<u64, u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<u64, u8> as Default>::default().to_val()) }] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::F { i: Subject::from_val(&x_[0]), none_: Subject::from_val(&x_[1]), deserialize_ron: Subject::from_val(&x_[2]) }, 1 => Self::Second(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::F { i: b0, none_: b1, deserialize_ron: b2 } => Val::Enum(0, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::Second(b0, b1) => Val::Enum(1, vec![b0.to_val(), b1.to_val()]), } }
}
fn dflt_34_0() -> Kb<true> { <Kb<true> as Subject>::from_val(&vcore::gen::sample::<Kb<true>>(257304756)) }
#[derive(SerBin, SerJson, SerRon)]
#[doc = "attr docs"]
pub enum P34Lent<'a>  {
#[doc = "attr docs"]
F {
#[allow(dead_code)]
i: &'a Duration,
#[allow(dead_code)]
#[nserde(default_with = "self::dflt_34_0",)]
none_: &'a Kb<true>,
deserialize_ron: &'a u8
},
// plain comment
Second(#[allow(dead_code)]
&'a std::collections::BTreeSet<bool>, // plain comment
&'a BTreeMap<u64, u8>)
}
pub struct P34View(P34);
impl Subject for P34View { const TY: TyRef = <P34 as Subject>::TY; fn from_val(v: &Val) -> Self { P34View(Subject::from_val(v)) } fn to_val(&self) -> Val { self.0.to_val() } }
impl SerBin for P34View { fn ser_bin(&self, s: &mut Vec<u8>) { match &self.0 { P34::F { i: x0, none_: x1, deserialize_ron: x2 } => P34Lent::F { i: x0, none_: x1, deserialize_ron: x2 }.ser_bin(s), P34::Second(x0, x1) => P34Lent::Second(x0, x1).ser_bin(s), } } }
impl DeBin for P34View { fn de_bin(o: &mut usize, d: &[u8]) -> Result<Self, nanoserde::DeBinErr> { Ok(P34View(DeBin::de_bin(o, d)?)) } }
impl SerJson for P34View { fn ser_json(&self, d: usize, s: &mut nanoserde::SerJsonState) { match &self.0 { P34::F { i: x0, none_: x1, deserialize_ron: x2 } => P34Lent::F { i: x0, none_: x1, deserialize_ron: x2 }.ser_json(d, s), P34::Second(x0, x1) => P34Lent::Second(x0, x1).ser_json(d, s), } } }
impl DeJson for P34View { fn de_json(s: &mut nanoserde::DeJsonState, i: &mut core::str::Chars) -> Result<Self, nanoserde::DeJsonErr> { Ok(P34View(DeJson::de_json(s, i)?)) } }
impl SerRon for P34View { fn ser_ron(&self, d: usize, s: &mut nanoserde::SerRonState) { match &self.0 { P34::F { i: x0, none_: x1, deserialize_ron: x2 } => P34Lent::F { i: x0, none_: x1, deserialize_ron: x2 }.ser_ron(d, s), P34::Second(x0, x1) => P34Lent::Second(x0, x1).ser_ron(d, s), } } }
impl DeRon for P34View { fn de_ron(s: &mut nanoserde::DeRonState, i: &mut core::str::Chars) -> Result<Self, nanoserde::DeRonErr> { Ok(P34View(DeRon::de_ron(s, i)?)) } }

#[derive(Hash, Eq, PartialEq, PartialOrd, DeJson, SerJson, Default)]
#[derive(Ord)]
#[allow(clippy::all)] pub enum P35  {
    // plain comment
#[default]
Some,
    /** block docs */
NaN,
    #[cfg(all())]
#[nserde(rename = "\ta")]
#[cfg(all())]
String = (10),
    #[allow(dead_code)]
lower,
    SHOUT,
}
impl Subject for P35 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P35", variants: &[
        VariantDef { name: "Some", json: "Some", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "NaN", json: "NaN", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "String", json: "\ta", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "lower", json: "lower", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "SHOUT", json: "SHOUT", kind: Kind::Unit, fields: &[] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::Some, 1 => Self::NaN, 2 => Self::String, 3 => Self::lower, 4 => Self::SHOUT, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::Some => Val::Enum(0, vec![]), Self::NaN => Val::Enum(1, vec![]), Self::String => Val::Enum(2, vec![]), Self::lower => Val::Enum(3, vec![]), Self::SHOUT => Val::Enum(4, vec![]), } }
}


#[derive(nanoserde::DeBin, nanoserde::DeRon, nanoserde::SerJson, nanoserde::SerBin, nanoserde::DeJson, nanoserde::SerRon)]
pub(in crate) struct P36  {
    #[doc = "attr docs"]
pub t13: [core::option::Option<Duration>; 2 * LEN],
    /** block docs */
pub camelCase: String,
    // plain comment
pub(super) nan: Vec<u8>,
    #[allow(unused, non_snake_case)]
pub(crate) j94: P26<String, 1, true>,
}
impl Subject for P36  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P36", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "t13", json: "t13", ron: "t13", ty: <[core::option::Option<Duration>; 2 * LEN] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "camelCase", json: "camelCase", ron: "camelCase", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "nan", json: "nan", ron: "nan", ty: <Vec<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<u8> as Default>::default().to_val()) },
        FieldDef { name: "j94", json: "j94", ron: "j94", ty: <P26<String, 1, true> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P36 { t13: Subject::from_val(&x[0]), camelCase: Subject::from_val(&x[1]), nan: Subject::from_val(&x[2]), j94: Subject::from_val(&x[3]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.t13.to_val(), self.camelCase.to_val(), self.nan.to_val(), self.j94.to_val()]) }
}


#[derive(nanoserde::DeBin, nanoserde::SerRon, nanoserde::DeRon, nanoserde::DeJson, nanoserde::SerBin, nanoserde::SerJson)]
#[allow(dead_code)]
#[nserde(default)]
pub(in crate) struct P37  {

}
impl Subject for P37  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P37", kind: Kind::Named, transparent: false, container_default: true, fields: &[
        ] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P37 {  } }
    fn to_val(&self) -> Val { Val::Rec(vec![]) }
}


#[derive(SerRon, SerBin, DeJson, DeRon, Hash, DeBin, SerJson)]
#[derive(Ord, PartialOrd, PartialEq, Eq)]
#[allow(clippy::all)] pub enum P38  {
    Err_,
    // plain comment
Ok_,
    r#struct,
    /** block docs */
Some_,
    Third
}
impl Subject for P38 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P38", variants: &[
        VariantDef { name: "Err_", json: "Err_", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Ok_", json: "Ok_", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "struct", json: "struct", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Some_", json: "Some_", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Third", json: "Third", kind: Kind::Unit, fields: &[] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::Err_, 1 => Self::Ok_, 2 => Self::r#struct, 3 => Self::Some_, 4 => Self::Third, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::Err_ => Val::Enum(0, vec![]), Self::Ok_ => Val::Enum(1, vec![]), Self::r#struct => Val::Enum(2, vec![]), Self::Some_ => Val::Enum(3, vec![]), Self::Third => Val::Enum(4, vec![]), } }
}


#[derive(PartialEq, DeJson, SerRon, DeRon, Hash, Eq, PartialOrd, Ord, SerBin, DeBin, SerJson)]
#[allow(clippy::all)] pub enum P39  {
    #[allow(unused, non_snake_case)]
Some,
    #[cfg(all())]
True,
    Self_ = 5 + 0,
    #[doc = "attr docs"]
TRUE = 0 + 8,
    #[allow(dead_code)]
B = 14,
    #[nserde(rename = r#"Baz"#,)]
/** block docs */
D,
    Third = 19,
    Err = 0 + 26,
    #[allow(unused, non_snake_case)]
X1,
    #[allow(unused, non_snake_case)]
lower = 0 + 33,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
#[nserde(rename = r#"$ref"#)]
#[cfg(all())]
some,
    // plain comment
Default = 35
}
impl Subject for P39 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P39", variants: &[
        VariantDef { name: "Some", json: "Some", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "True", json: "True", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Self_", json: "Self_", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "TRUE", json: "TRUE", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "B", json: "B", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "D", json: "Baz", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Third", json: "Third", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Err", json: "Err", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "X1", json: "X1", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "lower", json: "lower", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "some", json: "$ref", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Default", json: "Default", kind: Kind::Unit, fields: &[] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::Some, 1 => Self::True, 2 => Self::Self_, 3 => Self::TRUE, 4 => Self::B, 5 => Self::D, 6 => Self::Third, 7 => Self::Err, 8 => Self::X1, 9 => Self::lower, 10 => Self::some, 11 => Self::Default, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::Some => Val::Enum(0, vec![]), Self::True => Val::Enum(1, vec![]), Self::Self_ => Val::Enum(2, vec![]), Self::TRUE => Val::Enum(3, vec![]), Self::B => Val::Enum(4, vec![]), Self::D => Val::Enum(5, vec![]), Self::Third => Val::Enum(6, vec![]), Self::Err => Val::Enum(7, vec![]), Self::X1 => Val::Enum(8, vec![]), Self::lower => Val::Enum(9, vec![]), Self::some => Val::Enum(10, vec![]), Self::Default => Val::Enum(11, vec![]), } }
}


#[derive(DeBin, SerBin)]
#[doc = "attr docs"]
#[nserde(crate = "::nanoserde")]
#[doc = "attr docs"]
pub struct P40<Item: DeRonLike + MySerJson, K: Ord, const N: usize>(/** block docs */
#[nserde(skip)]
#[cfg(all())]
pub Vec<[Item; N]>, #[allow(unused, non_snake_case)]
pub [Item; N], pub(super) LinkedList<[u8; N]>, pub(super) String, #[cfg(all())]
pub(crate) K) where K: DeJsonOwned;
impl<Item: DeRonLike + MySerJson + Subject, K: Ord + DeJsonOwned + Subject, const N: usize> Subject for P40<Item, K, N>  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P40", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <Vec<[Item; N]> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<[Item; N]> as Default>::default().to_val()) },
        FieldDef { name: "", json: "", ron: "", ty: <[Item; N] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "", json: "", ron: "", ty: <LinkedList<[u8; N]> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <LinkedList<[u8; N]> as Default>::default().to_val()) },
        FieldDef { name: "", json: "", ron: "", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "", json: "", ron: "", ty: <K as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P40(Subject::from_val(&x[0]), Subject::from_val(&x[1]), Subject::from_val(&x[2]), Subject::from_val(&x[3]), Subject::from_val(&x[4])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val(), self.1.to_val(), self.2.to_val(), self.3.to_val(), self.4.to_val()]) }
}


macro_rules! mk_P41 { ($a0:vis,) => {
#[derive(nanoserde::DeRon, nanoserde::SerJson, nanoserde::SerBin, nanoserde::SerRon, nanoserde::DeBin, nanoserde::DeJson)]
$a0 struct P41;
} }
mk_P41!(pub,);
impl Subject for P41  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P41", kind: Kind::Unit, transparent: false, container_default: false, fields: &[
        ] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P41 {} }
    fn to_val(&self) -> Val { Val::Rec(vec![]) }
}


#[derive(nanoserde::DeRon, nanoserde::DeJson, nanoserde::DeBin, Default, nanoserde::SerJson, nanoserde::SerRon, nanoserde::SerBin)]
#[allow(unused, non_snake_case)]
#[allow(clippy::all)] pub enum P42  {
    #[default]
TRUE,
    #[doc = "attr docs"]
Option,
    nan,
    // plain comment
Qux,
    // plain comment
Struct
}
impl Subject for P42 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P42", variants: &[
        VariantDef { name: "TRUE", json: "TRUE", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Option", json: "Option", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "nan", json: "nan", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Qux", json: "Qux", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Struct", json: "Struct", kind: Kind::Unit, fields: &[] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::TRUE, 1 => Self::Option, 2 => Self::nan, 3 => Self::Qux, 4 => Self::Struct, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::TRUE => Val::Enum(0, vec![]), Self::Option => Val::Enum(1, vec![]), Self::nan => Val::Enum(2, vec![]), Self::Qux => Val::Enum(3, vec![]), Self::Struct => Val::Enum(4, vec![]), } }
}


#[derive(nanoserde::SerJson, nanoserde::DeRon, nanoserde::DeJson, nanoserde::SerRon, nanoserde::DeBin, nanoserde::SerBin)]
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
pub struct P43  {
    pub(super) some: Box<SystemTime>,
    #[nserde(default_with = "self::dflt_43_0")]
#[allow(dead_code)]
name: i16,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
#[nserde(skip)]
#[cfg(all())]
pub(super) q40: u32,
    #[allow(dead_code)]
#[nserde(rename = "e")]
// plain comment
pub msg: P28<(u8, String), 1, { 1 < 2 }>,
    #[allow(unused, non_snake_case)]
pub(super) l90: Vec<P26<String, 1, true>>
}
impl Subject for P43  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P43", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "some", json: "some", ron: "some", ty: <Box<SystemTime> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "name", json: "name", ron: "name", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::Value(|| dflt_43_0().to_val()), is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) },
        FieldDef { name: "q40", json: "q40", ron: "q40", ty: <u32 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u32 as Default>::default().to_val()) },
        FieldDef { name: "msg", json: "e", ron: "e", ty: <P28<(u8, String), 1, { 1 < 2 }> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "l90", json: "l90", ron: "l90", ty: <Vec<P26<String, 1, true>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<P26<String, 1, true>> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P43 { some: Subject::from_val(&x[0]), name: Subject::from_val(&x[1]), q40: Subject::from_val(&x[2]), msg: Subject::from_val(&x[3]), l90: Subject::from_val(&x[4]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.some.to_val(), self.name.to_val(), self.q40.to_val(), self.msg.to_val(), self.l90.to_val()]) }
}
fn dflt_43_0() -> i16 { <i16 as Subject>::from_val(&vcore::gen::sample::<i16>(917915244)) }

#[derive(Default, DeBin, SerBin)]
#[cfg(all())]
pub struct P44(#[nserde(skip)]
pub u128, #[nserde(proxy = "XP44_1")]
/** block docs */
pub(crate) WP44_0,) ;
impl Subject for P44  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P44", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <u128 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u128 as Default>::default().to_val()) },
        FieldDef { name: "", json: "", ron: "", ty: <WP44_0 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <WP44_0 as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P44(Subject::from_val(&x[0]), Subject::from_val(&x[1])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val(), self.1.to_val()]) }
}
#[derive(SerBin, DeBin)]
 pub struct XP44_1 { pub inner: std::vec::Vec<P30>, pub more: bool }
impl Subject for XP44_1  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "XP44_1", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "inner", json: "inner", ron: "inner", ty: <std::vec::Vec<P30> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::vec::Vec<P30> as Default>::default().to_val()) },
        FieldDef { name: "more", json: "more", ron: "more", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); XP44_1 { inner: Subject::from_val(&x[0]), more: Subject::from_val(&x[1]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.inner.to_val(), self.more.to_val()]) }
}
pub struct WP44_0(pub Val);
impl Default for WP44_0 { fn default() -> Self { WP44_0(vcore::gen::sample::<XP44_1>(1018222592)) } }
impl Subject for WP44_0 { const TY: TyRef = <XP44_1 as Subject>::TY; fn from_val(v: &Val) -> Self { WP44_0(v.clone()) } fn to_val(&self) -> Val { self.0.clone() } }
impl From<&WP44_0> for XP44_1 { fn from(x: &WP44_0) -> Self { Subject::from_val(&x.0) } }
impl From<&XP44_1> for WP44_0 { fn from(x: &XP44_1) -> Self { WP44_0(x.to_val()) } }

macro_rules! mk_P45 { ($a0:vis,) => {
#[derive(DeBin, Ord, Eq, SerJson, PartialEq, Hash, PartialOrd, SerRon, SerBin, DeRon, DeJson)]
#[doc = "attr docs"]
#[allow(clippy::all)] $a0 enum P45  {
    #[allow(dead_code)]
camelCase,
    #[allow(unused, non_snake_case)]
Green,
    Second,
}
} }
mk_P45!(pub,);
impl Subject for P45 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P45", variants: &[
        VariantDef { name: "camelCase", json: "camelCase", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Green", json: "Green", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Second", json: "Second", kind: Kind::Unit, fields: &[] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::camelCase, 1 => Self::Green, 2 => Self::Second, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::camelCase => Val::Enum(0, vec![]), Self::Green => Val::Enum(1, vec![]), Self::Second => Val::Enum(2, vec![]), } }
}


#[derive(DeJson)]
#[derive(SerJson, DeBin, SerBin)]
 pub struct P46Px { via: (Box<String>, ::std::option::Option<i32>, (bool, i64,)), flag: bool }
impl Subject for P46Px  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P46Px", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "via", json: "via", ron: "via", ty: <(Box<String>, ::std::option::Option<i32>, (bool, i64,)) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(Box<String>, ::std::option::Option<i32>, (bool, i64,)) as Default>::default().to_val()) },
        FieldDef { name: "flag", json: "flag", ron: "flag", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P46Px { via: Subject::from_val(&x[0]), flag: Subject::from_val(&x[1]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.via.to_val(), self.flag.to_val()]) }
}
#[derive(DeJson)]
#[derive(SerJson, DeBin, SerBin)]
 #[nserde(proxy = "P46Px")]
pub struct P46 (Val);
impl Subject for P46 { const TY: TyRef = <P46Px as Subject>::TY; fn from_val(v: &Val) -> Self { let v = v.clone(); P46(v) } fn to_val(&self) -> Val { self.0.clone() } }
impl From<&P46> for P46Px { fn from(x: &P46) -> Self { Subject::from_val(&x.0) } }
impl From<&P46Px> for P46 { fn from(x: &P46Px) -> Self { let v = x.to_val(); P46(v) } }

/** block docs */
#[derive(SerRon, DeRon, Default)]
pub struct P47  {

}
impl Subject for P47  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P47", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        ] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P47 {  } }
    fn to_val(&self) -> Val { Val::Rec(vec![]) }
}


#[derive(SerJson, DeBin, DeJson, DeRon, SerBin, SerRon)]
pub struct P48  {
    // plain comment
pub y89: Option<f32>,
    pub(super) s: std::option::Option<i64>,
    #[allow(dead_code)]
#[nserde(rename = "Option_")]
pub m31: P45,
}
impl Subject for P48  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P48", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "y89", json: "y89", ron: "y89", ty: <Option<f32> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<f32> as Default>::default().to_val()) },
        FieldDef { name: "s", json: "s", ron: "s", ty: <std::option::Option<i64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <std::option::Option<i64> as Default>::default().to_val()) },
        FieldDef { name: "m31", json: "Option_", ron: "Option_", ty: <P45 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P48 { y89: Subject::from_val(&x[0]), s: Subject::from_val(&x[1]), m31: Subject::from_val(&x[2]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.y89.to_val(), self.s.to_val(), self.m31.to_val()]) }
}


#[derive(SerJson)]
#[derive(DeJson)]
#[allow(unused, non_snake_case)]
#[allow(clippy::all)] pub enum P49  {
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
Green = 5,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
Default = 10,
    // plain comment
inf = (11),
    #[allow(dead_code)]
East = 0 + 18,
    #[allow(unused, non_snake_case)]
Ok_ = (24),
}
impl Subject for P49 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P49", variants: &[
        VariantDef { name: "Green", json: "Green", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Default", json: "Default", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "inf", json: "inf", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "East", json: "East", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Ok_", json: "Ok_", kind: Kind::Unit, fields: &[] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::Green, 1 => Self::Default, 2 => Self::inf, 3 => Self::East, 4 => Self::Ok_, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::Green => Val::Enum(0, vec![]), Self::Default => Val::Enum(1, vec![]), Self::inf => Val::Enum(2, vec![]), Self::East => Val::Enum(3, vec![]), Self::Ok_ => Val::Enum(4, vec![]), } }
}


#[derive(SerJson, DeJson)]
// plain comment
pub(in crate) struct P50<Item: Marker, const N: usize = 2>  {
    #[nserde(serialize_none_as_null)]
#[allow(dead_code)]
y: Option<Vec<Kn<-1>>>,
    #[allow(unused, non_snake_case)]
#[nserde(serialize_none_as_null,)]
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
pub(crate) n34: Option<::std::string::String>,
    pub(super) v19: u16,
    /** block docs */
pub first: Vec<Item>,
}
impl<Item: Marker + Subject, const N: usize> Subject for P50<Item, N>  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P50", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "y", json: "y", ron: "y", ty: <Option<Vec<Kn<-1>>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Kn<-1>>> as Default>::default().to_val()) },
        FieldDef { name: "n34", json: "n34", ron: "n34", ty: <Option<::std::string::String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<::std::string::String> as Default>::default().to_val()) },
        FieldDef { name: "v19", json: "v19", ron: "v19", ty: <u16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u16 as Default>::default().to_val()) },
        FieldDef { name: "first", json: "first", ron: "first", ty: <Vec<Item> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P50 { y: Subject::from_val(&x[0]), n34: Subject::from_val(&x[1]), v19: Subject::from_val(&x[2]), first: Subject::from_val(&x[3]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.y.to_val(), self.n34.to_val(), self.v19.to_val(), self.first.to_val()]) }
}


#[derive(SerRon, DeRon, SerJson, DeBin, SerBin, DeJson)]
#[nserde(serialize_none_as_null)]
pub struct P51Big  {
    #[nserde(default)]
pub first: Option<u64>,
    #[cfg(all())]
pub(crate) __y: Option<f64>,
    /** block docs */
#[nserde(rename = "self",)]
// plain comment
pub(crate) skip: Option<Duration>,
    #[nserde(rename = r#"crate"#)]
pub x: P29,
    #[nserde(rename = "w",)]
a__b: Option<i32>,
    #[nserde(rename = "std_")]
pub numbuf: BTreeMap<Vec<i64>, Vec<String>>,
    w17: Option<std::vec::Vec<i8>>,
    #[nserde(serialize_none_as_null)]
f: Option<f32>,
    #[allow(dead_code)]
#[nserde(default = 5)]
#[allow(unused, non_snake_case)]
pub o41: i32,
    pub(super) field: SystemTime,
    /** block docs */
pub(super) z19: BTreeSet<usize>,
    #[allow(dead_code)]
value: HashMap<u8, Duration>,
    #[cfg(all())]
pub o: Option<P32<u8>>,
    pub(super) h88: Option<P29>,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
pub(super) t35: Duration,
    // plain comment
pub(crate) z71: Option<LinkedList<Option<u16>>>,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
pub c85: P39,
    #[nserde(rename = "some_")]
#[doc = "attr docs"]
pub(super) _s: Option<P32<bool>>,
    // plain comment
pub s39: ::std::option::Option<u16>,
    #[nserde(skip, rename = r#"NULL"#, default_with = "dflt_51_0",)]
pub r1: u8,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
#[nserde(rename = r#"o2"#)]
pub h30: P33,
    pub l42: Option<i8>,
    #[nserde(skip)]
#[cfg(all())]
#[nserde(default)]
none_: Vec<P48>,
    #[cfg(all())]
#[nserde(rename = r#"inf"#)]
/** block docs */
pub p9: Option<HashMap<i16, std::option::Option<f64>>>,
    pub core_: HashSet<i16>,
    pub null: u16,
    #[doc = "attr docs"]
#[nserde(rename = "some")]
#[allow(unused, non_snake_case)]
pub z: Option<P37>,
    #[nserde(serialize_none_as_null)]
pub buf: Option<P42>,
    #[nserde(default)]
#[allow(dead_code)]
pub snake_case_name: Kb<{ 1 > 2 }>,
    c10: Option<Vec<HashSet<bool>>>,
    #[nserde(serialize_none_as_null,)]
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
pub alloc_: Option<(Duration, Option<Kb<true>>,)>,
    #[nserde(skip,)]
// plain comment
e49: Option<[P37; 0]>,
    #[doc = "attr docs"]
pub(crate) Vec_: Option<i64>,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
pub X: Option<BTreeMap<(i32, i8), String>>,
    #[allow(unused, non_snake_case)]
pub(crate) u8_: Option<P31>,
    #[nserde(default)]
#[doc = "attr docs"]
pub d1: Vec<P42>,
    // plain comment
pub(crate) cur: Option<u16>,
    #[doc = "attr docs"]
#[nserde(serialize_none_as_null)]
pub de_bin: Option<P42>,
    w28: i64,
    /** block docs */
pub nanoserde_: [core::option::Option<u16>; 4],
    /** block docs */
tok: Option<P39>,
    pub name: std::option::Option<u16>,
    #[doc = "attr docs"]
#[nserde(default, serialize_none_as_null)]
pub r#loop: Option<i64>,
    #[nserde(rename = "fn",)]
pub kind: P41,
    pub(crate) h48: Option<i32>,
    pub(super) _a: HashMap<Box<i16>, P34>,
    #[nserde(skip)]
#[doc = "attr docs"]
pub n89: Odd<std::marker::PhantomData<(u8,)>>,
    pub truex: P48,
    q97: Option<Vec<(f64, f64,)>>,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
pub(super) none: f32,
    None: Option<Vec<Option<usize>>>,
    y: Box<Box<f64>>,
    #[nserde(default)]
pub f0: Option<[i8; 4]>,
    #[nserde(default)]
#[allow(unused, non_snake_case)]
pub(super) w35: Option<bool>,
    pub(super) d88: f32,
    /** block docs */
#[nserde(serialize_none_as_null,)]
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
pub(super) r#where: Option<u8>,
    // plain comment
#[nserde(rename = r"unit")]
pub e2: Option<(P43, f64)>,
    pub e89: Option<usize>,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
#[nserde(rename = r#"_0x"#)]
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
pub(crate) items: P45,
    pub i62: P42,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
pub(crate) out: Vec<P34>,
    unknown: Box<Vec<u64>>,
    /** block docs */
#[nserde(default,)]
/** block docs */
pub state: Option<P41>,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
a: Option<u32>,
    // plain comment
#[nserde(default)]
pub(crate) data: f64,
    pub Z: f64,
    pub(crate) e48: Option<(BTreeSet<u8>, f32,)>,
    #[nserde(rename = "c")]
#[allow(unused, non_snake_case)]
msg: Option<[[u8; 2]; 40]>,
    pub q62: std::collections::BTreeSet<i64>,
    #[doc = "attr docs"]
#[nserde(rename = r"s")]
pub deserialize_ron: Option<(Box<bool>, LinkedList<SystemTime>, [u32; { LEN + 1 }], (usize, SystemTime, Kc<'>'>, f32,),)>,
}
impl Subject for P51Big  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P51Big", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "first", json: "first", ron: "first", ty: <Option<u64> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<u64> as Default>::default().to_val()) },
        FieldDef { name: "__y", json: "__y", ron: "__y", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "skip", json: "self", ron: "self", ty: <Option<Duration> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<Duration> as Default>::default().to_val()) },
        FieldDef { name: "x", json: "crate", ron: "crate", ty: <P29 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "a__b", json: "w", ron: "w", ty: <Option<i32> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<i32> as Default>::default().to_val()) },
        FieldDef { name: "numbuf", json: "std_", ron: "std_", ty: <BTreeMap<Vec<i64>, Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<Vec<i64>, Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "w17", json: "w17", ron: "w17", ty: <Option<std::vec::Vec<i8>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<std::vec::Vec<i8>> as Default>::default().to_val()) },
        FieldDef { name: "f", json: "f", ron: "f", ty: <Option<f32> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<f32> as Default>::default().to_val()) },
        FieldDef { name: "o41", json: "o41", ron: "o41", ty: <i32 as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: i32 = 5; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <i32 as Default>::default().to_val()) },
        FieldDef { name: "field", json: "field", ron: "field", ty: <SystemTime as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "z19", json: "z19", ron: "z19", ty: <BTreeSet<usize> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeSet<usize> as Default>::default().to_val()) },
        FieldDef { name: "value", json: "value", ron: "value", ty: <HashMap<u8, Duration> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <HashMap<u8, Duration> as Default>::default().to_val()) },
        FieldDef { name: "o", json: "o", ron: "o", ty: <Option<P32<u8>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<P32<u8>> as Default>::default().to_val()) },
        FieldDef { name: "h88", json: "h88", ron: "h88", ty: <Option<P29> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<P29> as Default>::default().to_val()) },
        FieldDef { name: "t35", json: "t35", ron: "t35", ty: <Duration as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Duration as Default>::default().to_val()) },
        FieldDef { name: "z71", json: "z71", ron: "z71", ty: <Option<LinkedList<Option<u16>>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<LinkedList<Option<u16>>> as Default>::default().to_val()) },
        FieldDef { name: "c85", json: "c85", ron: "c85", ty: <P39 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "_s", json: "some_", ron: "some_", ty: <Option<P32<bool>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<P32<bool>> as Default>::default().to_val()) },
        FieldDef { name: "s39", json: "s39", ron: "s39", ty: <::std::option::Option<u16> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <::std::option::Option<u16> as Default>::default().to_val()) },
        FieldDef { name: "r1", json: "NULL", ron: "NULL", ty: <u8 as Subject>::ty, skip: true, dflt: Dflt::Value(|| dflt_51_0().to_val()), is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "h30", json: "o2", ron: "o2", ty: <P33 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "l42", json: "l42", ron: "l42", ty: <Option<i8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<i8> as Default>::default().to_val()) },
        FieldDef { name: "none_", json: "none_", ron: "none_", ty: <Vec<P48> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <Vec<P48> as Default>::default().to_val()) },
        FieldDef { name: "p9", json: "inf", ron: "inf", ty: <Option<HashMap<i16, std::option::Option<f64>>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<HashMap<i16, std::option::Option<f64>>> as Default>::default().to_val()) },
        FieldDef { name: "core_", json: "core_", ron: "core_", ty: <HashSet<i16> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <HashSet<i16> as Default>::default().to_val()) },
        FieldDef { name: "null", json: "null", ron: "null", ty: <u16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u16 as Default>::default().to_val()) },
        FieldDef { name: "z", json: "some", ron: "some", ty: <Option<P37> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<P37> as Default>::default().to_val()) },
        FieldDef { name: "buf", json: "buf", ron: "buf", ty: <Option<P42> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<P42> as Default>::default().to_val()) },
        FieldDef { name: "snake_case_name", json: "snake_case_name", ron: "snake_case_name", ty: <Kb<{ 1 > 2 }> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <Kb<{ 1 > 2 }> as Default>::default().to_val()) },
        FieldDef { name: "c10", json: "c10", ron: "c10", ty: <Option<Vec<HashSet<bool>>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<HashSet<bool>>> as Default>::default().to_val()) },
        FieldDef { name: "alloc_", json: "alloc_", ron: "alloc_", ty: <Option<(Duration, Option<Kb<true>>,)> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<(Duration, Option<Kb<true>>,)> as Default>::default().to_val()) },
        FieldDef { name: "e49", json: "e49", ron: "e49", ty: <Option<[P37; 0]> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<[P37; 0]> as Default>::default().to_val()) },
        FieldDef { name: "Vec_", json: "Vec_", ron: "Vec_", ty: <Option<i64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<i64> as Default>::default().to_val()) },
        FieldDef { name: "X", json: "X", ron: "X", ty: <Option<BTreeMap<(i32, i8), String>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<BTreeMap<(i32, i8), String>> as Default>::default().to_val()) },
        FieldDef { name: "u8_", json: "u8_", ron: "u8_", ty: <Option<P31> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<P31> as Default>::default().to_val()) },
        FieldDef { name: "d1", json: "d1", ron: "d1", ty: <Vec<P42> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <Vec<P42> as Default>::default().to_val()) },
        FieldDef { name: "cur", json: "cur", ron: "cur", ty: <Option<u16> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<u16> as Default>::default().to_val()) },
        FieldDef { name: "de_bin", json: "de_bin", ron: "de_bin", ty: <Option<P42> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<P42> as Default>::default().to_val()) },
        FieldDef { name: "w28", json: "w28", ron: "w28", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) },
        FieldDef { name: "nanoserde_", json: "nanoserde_", ron: "nanoserde_", ty: <[core::option::Option<u16>; 4] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <[core::option::Option<u16>; 4] as Default>::default().to_val()) },
        FieldDef { name: "tok", json: "tok", ron: "tok", ty: <Option<P39> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<P39> as Default>::default().to_val()) },
        FieldDef { name: "name", json: "name", ron: "name", ty: <std::option::Option<u16> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <std::option::Option<u16> as Default>::default().to_val()) },
        FieldDef { name: "r#loop", json: "loop", ron: "loop", ty: <Option<i64> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<i64> as Default>::default().to_val()) },
        FieldDef { name: "kind", json: "fn", ron: "fn", ty: <P41 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "h48", json: "h48", ron: "h48", ty: <Option<i32> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<i32> as Default>::default().to_val()) },
        FieldDef { name: "_a", json: "_a", ron: "_a", ty: <HashMap<Box<i16>, P34> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <HashMap<Box<i16>, P34> as Default>::default().to_val()) },
        FieldDef { name: "n89", json: "n89", ron: "n89", ty: <Odd<std::marker::PhantomData<(u8,)>> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: true, type_default: Some(|| <Odd<std::marker::PhantomData<(u8,)>> as Default>::default().to_val()) },
        FieldDef { name: "truex", json: "truex", ron: "truex", ty: <P48 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "q97", json: "q97", ron: "q97", ty: <Option<Vec<(f64, f64,)>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<(f64, f64,)>> as Default>::default().to_val()) },
        FieldDef { name: "none", json: "none", ron: "none", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) },
        FieldDef { name: "None", json: "None", ron: "None", ty: <Option<Vec<Option<usize>>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<usize>>> as Default>::default().to_val()) },
        FieldDef { name: "y", json: "y", ron: "y", ty: <Box<Box<f64>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Box<Box<f64>> as Default>::default().to_val()) },
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <Option<[i8; 4]> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<[i8; 4]> as Default>::default().to_val()) },
        FieldDef { name: "w35", json: "w35", ron: "w35", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "d88", json: "d88", ron: "d88", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) },
        FieldDef { name: "r#where", json: "where", ron: "where", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "e2", json: "unit", ron: "unit", ty: <Option<(P43, f64)> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<(P43, f64)> as Default>::default().to_val()) },
        FieldDef { name: "e89", json: "e89", ron: "e89", ty: <Option<usize> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<usize> as Default>::default().to_val()) },
        FieldDef { name: "items", json: "_0x", ron: "_0x", ty: <P45 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "i62", json: "i62", ron: "i62", ty: <P42 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <P42 as Default>::default().to_val()) },
        FieldDef { name: "out", json: "out", ron: "out", ty: <Vec<P34> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<P34> as Default>::default().to_val()) },
        FieldDef { name: "unknown", json: "unknown", ron: "unknown", ty: <Box<Vec<u64>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Box<Vec<u64>> as Default>::default().to_val()) },
        FieldDef { name: "state", json: "state", ron: "state", ty: <Option<P41> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<P41> as Default>::default().to_val()) },
        FieldDef { name: "a", json: "a", ron: "a", ty: <Option<u32> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<u32> as Default>::default().to_val()) },
        FieldDef { name: "data", json: "data", ron: "data", ty: <f64 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <f64 as Default>::default().to_val()) },
        FieldDef { name: "Z", json: "Z", ron: "Z", ty: <f64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f64 as Default>::default().to_val()) },
        FieldDef { name: "e48", json: "e48", ron: "e48", ty: <Option<(BTreeSet<u8>, f32,)> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<(BTreeSet<u8>, f32,)> as Default>::default().to_val()) },
        FieldDef { name: "msg", json: "c", ron: "c", ty: <Option<[[u8; 2]; 40]> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<[[u8; 2]; 40]> as Default>::default().to_val()) },
        FieldDef { name: "q62", json: "q62", ron: "q62", ty: <std::collections::BTreeSet<i64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::collections::BTreeSet<i64> as Default>::default().to_val()) },
        FieldDef { name: "deserialize_ron", json: "s", ron: "s", ty: <Option<(Box<bool>, LinkedList<SystemTime>, [u32; { LEN + 1 }], (usize, SystemTime, Kc<'>'>, f32,),)> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<(Box<bool>, LinkedList<SystemTime>, [u32; { LEN + 1 }], (usize, SystemTime, Kc<'>'>, f32,),)> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P51Big { first: Subject::from_val(&x[0]), __y: Subject::from_val(&x[1]), skip: Subject::from_val(&x[2]), x: Subject::from_val(&x[3]), a__b: Subject::from_val(&x[4]), numbuf: Subject::from_val(&x[5]), w17: Subject::from_val(&x[6]), f: Subject::from_val(&x[7]), o41: Subject::from_val(&x[8]), field: Subject::from_val(&x[9]), z19: Subject::from_val(&x[10]), value: Subject::from_val(&x[11]), o: Subject::from_val(&x[12]), h88: Subject::from_val(&x[13]), t35: Subject::from_val(&x[14]), z71: Subject::from_val(&x[15]), c85: Subject::from_val(&x[16]), _s: Subject::from_val(&x[17]), s39: Subject::from_val(&x[18]), r1: Subject::from_val(&x[19]), h30: Subject::from_val(&x[20]), l42: Subject::from_val(&x[21]), none_: Subject::from_val(&x[22]), p9: Subject::from_val(&x[23]), core_: Subject::from_val(&x[24]), null: Subject::from_val(&x[25]), z: Subject::from_val(&x[26]), buf: Subject::from_val(&x[27]), snake_case_name: Subject::from_val(&x[28]), c10: Subject::from_val(&x[29]), alloc_: Subject::from_val(&x[30]), e49: Subject::from_val(&x[31]), Vec_: Subject::from_val(&x[32]), X: Subject::from_val(&x[33]), u8_: Subject::from_val(&x[34]), d1: Subject::from_val(&x[35]), cur: Subject::from_val(&x[36]), de_bin: Subject::from_val(&x[37]), w28: Subject::from_val(&x[38]), nanoserde_: Subject::from_val(&x[39]), tok: Subject::from_val(&x[40]), name: Subject::from_val(&x[41]), r#loop: Subject::from_val(&x[42]), kind: Subject::from_val(&x[43]), h48: Subject::from_val(&x[44]), _a: Subject::from_val(&x[45]), n89: Subject::from_val(&x[46]), truex: Subject::from_val(&x[47]), q97: Subject::from_val(&x[48]), none: Subject::from_val(&x[49]), None: Subject::from_val(&x[50]), y: Subject::from_val(&x[51]), f0: Subject::from_val(&x[52]), w35: Subject::from_val(&x[53]), d88: Subject::from_val(&x[54]), r#where: Subject::from_val(&x[55]), e2: Subject::from_val(&x[56]), e89: Subject::from_val(&x[57]), items: Subject::from_val(&x[58]), i62: Subject::from_val(&x[59]), out: Subject::from_val(&x[60]), unknown: Subject::from_val(&x[61]), state: Subject::from_val(&x[62]), a: Subject::from_val(&x[63]), data: Subject::from_val(&x[64]), Z: Subject::from_val(&x[65]), e48: Subject::from_val(&x[66]), msg: Subject::from_val(&x[67]), q62: Subject::from_val(&x[68]), deserialize_ron: Subject::from_val(&x[69]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.first.to_val(), self.__y.to_val(), self.skip.to_val(), self.x.to_val(), self.a__b.to_val(), self.numbuf.to_val(), self.w17.to_val(), self.f.to_val(), self.o41.to_val(), self.field.to_val(), self.z19.to_val(), self.value.to_val(), self.o.to_val(), self.h88.to_val(), self.t35.to_val(), self.z71.to_val(), self.c85.to_val(), self._s.to_val(), self.s39.to_val(), self.r1.to_val(), self.h30.to_val(), self.l42.to_val(), self.none_.to_val(), self.p9.to_val(), self.core_.to_val(), self.null.to_val(), self.z.to_val(), self.buf.to_val(), self.snake_case_name.to_val(), self.c10.to_val(), self.alloc_.to_val(), self.e49.to_val(), self.Vec_.to_val(), self.X.to_val(), self.u8_.to_val(), self.d1.to_val(), self.cur.to_val(), self.de_bin.to_val(), self.w28.to_val(), self.nanoserde_.to_val(), self.tok.to_val(), self.name.to_val(), self.r#loop.to_val(), self.kind.to_val(), self.h48.to_val(), self._a.to_val(), self.n89.to_val(), self.truex.to_val(), self.q97.to_val(), self.none.to_val(), self.None.to_val(), self.y.to_val(), self.f0.to_val(), self.w35.to_val(), self.d88.to_val(), self.r#where.to_val(), self.e2.to_val(), self.e89.to_val(), self.items.to_val(), self.i62.to_val(), self.out.to_val(), self.unknown.to_val(), self.state.to_val(), self.a.to_val(), self.data.to_val(), self.Z.to_val(), self.e48.to_val(), self.msg.to_val(), self.q62.to_val(), self.deserialize_ron.to_val()]) }
}
fn dflt_51_0() -> u8 { <u8 as Subject>::from_val(&vcore::gen::sample::<u8>(776753705)) }

#[derive(SerBin, DeRon, SerRon, DeJson)]
#[derive(SerJson, Default, DeBin)]
#[cfg(all())]
pub(crate) struct P52  {
    #[doc = "attr docs"]
#[nserde(rename = r#"len"#)]
pub(crate) e99: Duration,
    pub(crate) v46: ::std::option::Option<P33>
}
impl Subject for P52  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P52", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "e99", json: "len", ron: "len", ty: <Duration as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Duration as Default>::default().to_val()) },
        FieldDef { name: "v46", json: "v46", ron: "v46", ty: <::std::option::Option<P33> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <::std::option::Option<P33> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P52 { e99: Subject::from_val(&x[0]), v46: Subject::from_val(&x[1]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.e99.to_val(), self.v46.to_val()]) }
}


#[derive(SerRon, DeRon, SerJson, SerBin, DeJson, DeBin)]
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
#[allow(clippy::all)] pub enum P53<Item: Clone + PartialEq, const Q: char = '\''> where Item: DeJsonOwned {
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
camelCase {
#[cfg(all())]
#[nserde(default,)]
NULL: i32,
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
some: Item,
#[allow(dead_code)]
none: [std::option::Option<u32>; 2]
},
    lower,
    /** block docs */
West
}
impl<Item: Clone + PartialEq + DeJsonOwned + Subject, const Q: char> Subject for P53<Item, Q> {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P53", variants: &[
        VariantDef { name: "camelCase", json: "camelCase", kind: Kind::Named, fields: &[FieldDef { name: "NULL", json: "NULL", ron: "NULL", ty: <i32 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <i32 as Default>::default().to_val()) }, FieldDef { name: "some", json: "some", ron: "some", ty: <Item as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "none", json: "none", ron: "none", ty: <[std::option::Option<u32>; 2] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <[std::option::Option<u32>; 2] as Default>::default().to_val()) }] },
        VariantDef { name: "lower", json: "lower", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "West", json: "West", kind: Kind::Unit, fields: &[] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::camelCase { NULL: Subject::from_val(&x_[0]), some: Subject::from_val(&x_[1]), none: Subject::from_val(&x_[2]) }, 1 => Self::lower, 2 => Self::West, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::camelCase { NULL: b0, some: b1, none: b2 } => Val::Enum(0, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::lower => Val::Enum(1, vec![]), Self::West => Val::Enum(2, vec![]), } }
}


#[derive(Default, SerBin, DeBin)]
pub struct P54();
impl Subject for P54  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P54", kind: Kind::Unit, transparent: false, container_default: false, fields: &[
        ] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P54 {} }
    fn to_val(&self) -> Val { Val::Rec(vec![]) }
}


#[derive(SerJson, DeJson)]
 pub struct P55Px { via: Box<Vec<Duration>>, flag: bool }
impl Subject for P55Px  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P55Px", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "via", json: "via", ron: "via", ty: <Box<Vec<Duration>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Box<Vec<Duration>> as Default>::default().to_val()) },
        FieldDef { name: "flag", json: "flag", ron: "flag", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P55Px { via: Subject::from_val(&x[0]), flag: Subject::from_val(&x[1]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.via.to_val(), self.flag.to_val()]) }
}
#[derive(SerJson, DeJson)]
 #[nserde(proxy = "P55Px")]
pub struct P55 (Val);
impl Subject for P55 { const TY: TyRef = <P55Px as Subject>::TY; fn from_val(v: &Val) -> Self { let v = v.clone(); P55(v) } fn to_val(&self) -> Val { self.0.clone() } }
impl From<&P55> for P55Px { fn from(x: &P55) -> Self { Subject::from_val(&x.0) } }
impl From<&P55Px> for P55 { fn from(x: &P55Px) -> Self { let v = x.to_val(); P55(v) } }

#[derive(DeJson, DeBin, SerJson, SerBin)]
 pub struct P56Px { via: Option<BTreeSet<i16>>, flag: bool }
impl Subject for P56Px  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P56Px", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "via", json: "via", ron: "via", ty: <Option<BTreeSet<i16>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<BTreeSet<i16>> as Default>::default().to_val()) },
        FieldDef { name: "flag", json: "flag", ron: "flag", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P56Px { via: Subject::from_val(&x[0]), flag: Subject::from_val(&x[1]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.via.to_val(), self.flag.to_val()]) }
}
#[derive(DeJson, DeBin, SerJson, SerBin)]
 #[nserde(proxy = "P56Px")]
pub struct P56 { hidden: Val }
impl Subject for P56 { const TY: TyRef = <P56Px as Subject>::TY; fn from_val(v: &Val) -> Self { let v = v.clone(); P56 { hidden: v } } fn to_val(&self) -> Val { self.hidden.clone() } }
impl From<&P56> for P56Px { fn from(x: &P56) -> Self { Subject::from_val(&x.hidden) } }
impl From<&P56Px> for P56 { fn from(x: &P56Px) -> Self { let v = x.to_val(); P56 { hidden: v } } }

#[derive(SerBin, DeJson, SerRon, SerJson, DeRon, DeBin)]
/** block docs */
#[allow(clippy::all)] pub enum P57  {
    // plain comment
Red {
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
#[nserde(rename = "y",)]
#[cfg(all())]
unit: [Duration; 3],
// plain comment
#[nserde(serialize_none_as_null)]
e88: ::std::option::Option<P37>,
#[nserde(rename = r"rename_")]
de_bin: i8,
},
    #[allow(dead_code)]
Vec(std::collections::HashMap<Vec<Text>, P41>, f32),
    #[nserde(rename = "e")]
#[cfg(all())]
camelCase {
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
#[nserde(rename = "v")]
#[allow(unused, non_snake_case)]
d1: P45
},
}
impl Subject for P57 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P57", variants: &[
        VariantDef { name: "Red", json: "Red", kind: Kind::Named, fields: &[FieldDef { name: "unit", json: "y", ron: "y", ty: <[Duration; 3] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <[Duration; 3] as Default>::default().to_val()) }, FieldDef { name: "e88", json: "e88", ron: "e88", ty: <::std::option::Option<P37> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <::std::option::Option<P37> as Default>::default().to_val()) }, FieldDef { name: "de_bin", json: "rename_", ron: "rename_", ty: <i8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i8 as Default>::default().to_val()) }] },
        VariantDef { name: "Vec", json: "Vec", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <std::collections::HashMap<Vec<Text>, P41> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::collections::HashMap<Vec<Text>, P41> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }] },
        VariantDef { name: "camelCase", json: "e", kind: Kind::Named, fields: &[FieldDef { name: "d1", json: "v", ron: "v", ty: <P45 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::Red { unit: Subject::from_val(&x_[0]), e88: Subject::from_val(&x_[1]), de_bin: Subject::from_val(&x_[2]) }, 1 => Self::Vec(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), 2 => Self::camelCase { d1: Subject::from_val(&x_[0]) }, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::Red { unit: b0, e88: b1, de_bin: b2 } => Val::Enum(0, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::Vec(b0, b1) => Val::Enum(1, vec![b0.to_val(), b1.to_val()]), Self::camelCase { d1: b0 } => Val::Enum(2, vec![b0.to_val()]), } }
}


#[derive(DeRon, SerBin, SerJson)]
#[derive(DeJson, DeBin, SerRon)]
#[allow(clippy::all)] pub enum P58  {
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
Ok,
    /** block docs */
Err,
    South {
// plain comment
#[nserde(rename = "self")]
#[allow(unused, non_snake_case)]
len: bool,
name: Option<Box<P58>>
},
    Some_
}
impl Subject for P58 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P58", variants: &[
        VariantDef { name: "Ok", json: "Ok", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Err", json: "Err", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "South", json: "South", kind: Kind::Named, fields: &[FieldDef { name: "len", json: "self", ron: "self", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }, FieldDef { name: "name", json: "name", ron: "name", ty: <Option<Box<P58>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: None }] },
        VariantDef { name: "Some_", json: "Some_", kind: Kind::Unit, fields: &[] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::Ok, 1 => Self::Err, 2 => Self::South { len: Subject::from_val(&x_[0]), name: Subject::from_val(&x_[1]) }, 3 => Self::Some_, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::Ok => Val::Enum(0, vec![]), Self::Err => Val::Enum(1, vec![]), Self::South { len: b0, name: b1 } => Val::Enum(2, vec![b0.to_val(), b1.to_val()]), Self::Some_ => Val::Enum(3, vec![]), } }
}


#[derive(SerBin, DeBin, DeRon, SerRon)]
pub struct P59  {
    #[allow(dead_code)]
#[nserde(rename = r"i")]
#[allow(dead_code)]
none: i8,
    /** block docs */
pub(crate) g69: P57,
    #[allow(dead_code)]
None: std::vec::Vec<P41>,
}
impl Subject for P59  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P59", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "none", json: "i", ron: "i", ty: <i8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i8 as Default>::default().to_val()) },
        FieldDef { name: "g69", json: "g69", ron: "g69", ty: <P57 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "None", json: "None", ron: "None", ty: <std::vec::Vec<P41> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::vec::Vec<P41> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P59 { none: Subject::from_val(&x[0]), g69: Subject::from_val(&x[1]), None: Subject::from_val(&x[2]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.none.to_val(), self.g69.to_val(), self.None.to_val()]) }
}

#[derive(SerBin, SerRon)]
pub struct P59Lent<'a, 'b: 'a>  {
#[cfg(all())]
#[nserde(rename = r"i")]
// plain comment
none: &'a i8,
/** block docs */
g69: &'b P57,
None: &'b std::vec::Vec<P41>
}
pub struct P59View(P59);
impl Subject for P59View { const TY: TyRef = <P59 as Subject>::TY; fn from_val(v: &Val) -> Self { P59View(Subject::from_val(v)) } fn to_val(&self) -> Val { self.0.to_val() } }
impl SerBin for P59View { fn ser_bin(&self, s: &mut Vec<u8>) { match &self.0 { P59 { none: x0, g69: x1, None: x2 } => P59Lent { none: x0, g69: x1, None: x2 }.ser_bin(s), } } }
impl DeBin for P59View { fn de_bin(o: &mut usize, d: &[u8]) -> Result<Self, nanoserde::DeBinErr> { Ok(P59View(DeBin::de_bin(o, d)?)) } }
impl SerRon for P59View { fn ser_ron(&self, d: usize, s: &mut nanoserde::SerRonState) { match &self.0 { P59 { none: x0, g69: x1, None: x2 } => P59Lent { none: x0, g69: x1, None: x2 }.ser_ron(d, s), } } }
impl DeRon for P59View { fn de_ron(s: &mut nanoserde::DeRonState, i: &mut core::str::Chars) -> Result<Self, nanoserde::DeRonErr> { Ok(P59View(DeRon::de_ron(s, i)?)) } }

#[derive(Ord, Eq, DeRon, SerBin, DeJson, PartialOrd, DeBin, Hash, SerRon, SerJson, PartialEq)]
#[nserde(default)]
#[allow(dead_code)]
pub struct P60  {
    #[doc = "attr docs"]
pub(crate) name: Vec<Duration>,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
#[nserde(rename = r"type")]
pub(super) cur: u32,
    #[nserde(rename = r"a")]
/** block docs */
pub(crate) inf: Vec<i32>,
    x24: i16,
    // plain comment
pub j53: Duration,
    #[cfg(all())]
some_: Box<core::option::Option<u32>>,
    #[allow(unused, non_snake_case)]
#[nserde(rename = "Y")]
pub(super) none: u16,
    pub(crate) e1: u64,
}
impl Subject for P60  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P60", kind: Kind::Named, transparent: false, container_default: true, fields: &[
        FieldDef { name: "name", json: "name", ron: "name", ty: <Vec<Duration> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<Duration> as Default>::default().to_val()) },
        FieldDef { name: "cur", json: "type", ron: "type", ty: <u32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u32 as Default>::default().to_val()) },
        FieldDef { name: "inf", json: "a", ron: "a", ty: <Vec<i32> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<i32> as Default>::default().to_val()) },
        FieldDef { name: "x24", json: "x24", ron: "x24", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) },
        FieldDef { name: "j53", json: "j53", ron: "j53", ty: <Duration as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Duration as Default>::default().to_val()) },
        FieldDef { name: "some_", json: "some_", ron: "some_", ty: <Box<core::option::Option<u32>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Box<core::option::Option<u32>> as Default>::default().to_val()) },
        FieldDef { name: "none", json: "Y", ron: "Y", ty: <u16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u16 as Default>::default().to_val()) },
        FieldDef { name: "e1", json: "e1", ron: "e1", ty: <u64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u64 as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P60 { name: Subject::from_val(&x[0]), cur: Subject::from_val(&x[1]), inf: Subject::from_val(&x[2]), x24: Subject::from_val(&x[3]), j53: Subject::from_val(&x[4]), some_: Subject::from_val(&x[5]), none: Subject::from_val(&x[6]), e1: Subject::from_val(&x[7]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.name.to_val(), self.cur.to_val(), self.inf.to_val(), self.x24.to_val(), self.j53.to_val(), self.some_.to_val(), self.none.to_val(), self.e1.to_val()]) }
}


#[derive(DeRon, Eq, Default, PartialOrd, DeJson, SerRon, SerJson, PartialEq, Ord, Hash)]
/** block docs */
#[allow(clippy::all)] pub enum P61  {
    #[default]
B,
    G,
    #[allow(dead_code)]
Baz
}
impl Subject for P61 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P61", variants: &[
        VariantDef { name: "B", json: "B", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "G", json: "G", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Baz", json: "Baz", kind: Kind::Unit, fields: &[] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::B, 1 => Self::G, 2 => Self::Baz, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::B => Val::Enum(0, vec![]), Self::G => Val::Enum(1, vec![]), Self::Baz => Val::Enum(2, vec![]), } }
}


#[derive(DeRon, DeJson, Default, PartialOrd, SerRon, SerBin, DeBin, SerJson, Ord, PartialEq, Hash, Eq)]
#[allow(unused, non_snake_case)]
#[nserde(serialize_none_as_null)]
pub struct P62  {
    // plain comment
#[nserde(rename = "Some")]
pub kind: i8
}
impl Subject for P62  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P62", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "kind", json: "Some", ron: "Some", ty: <i8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i8 as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P62 { kind: Subject::from_val(&x[0]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.kind.to_val()]) }
}

#[derive(SerBin, SerJson, SerRon)]
#[nserde(serialize_none_as_null)]
// plain comment
pub struct P62Lent<'a>  {
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
#[nserde(rename = "Some")]
#[allow(unused, non_snake_case)]
kind: &'a i8
}
pub struct P62View(P62);
impl Subject for P62View { const TY: TyRef = <P62 as Subject>::TY; fn from_val(v: &Val) -> Self { P62View(Subject::from_val(v)) } fn to_val(&self) -> Val { self.0.to_val() } }
impl SerBin for P62View { fn ser_bin(&self, s: &mut Vec<u8>) { match &self.0 { P62 { kind: x0 } => P62Lent { kind: x0 }.ser_bin(s), } } }
impl DeBin for P62View { fn de_bin(o: &mut usize, d: &[u8]) -> Result<Self, nanoserde::DeBinErr> { Ok(P62View(DeBin::de_bin(o, d)?)) } }
impl SerJson for P62View { fn ser_json(&self, d: usize, s: &mut nanoserde::SerJsonState) { match &self.0 { P62 { kind: x0 } => P62Lent { kind: x0 }.ser_json(d, s), } } }
impl DeJson for P62View { fn de_json(s: &mut nanoserde::DeJsonState, i: &mut core::str::Chars) -> Result<Self, nanoserde::DeJsonErr> { Ok(P62View(DeJson::de_json(s, i)?)) } }
impl SerRon for P62View { fn ser_ron(&self, d: usize, s: &mut nanoserde::SerRonState) { match &self.0 { P62 { kind: x0 } => P62Lent { kind: x0 }.ser_ron(d, s), } } }
impl DeRon for P62View { fn de_ron(s: &mut nanoserde::DeRonState, i: &mut core::str::Chars) -> Result<Self, nanoserde::DeRonErr> { Ok(P62View(DeRon::de_ron(s, i)?)) } }

#[derive(nanoserde::DeJson, nanoserde::SerJson, nanoserde::SerRon, nanoserde::DeRon, nanoserde::SerBin, nanoserde::DeBin)]
#[cfg(all())]
pub struct P63  {
    #[nserde(default_with = "self::dflt_63_0")]
#[allow(dead_code)]
pub s74: u32,
}
impl Subject for P63  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P63", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "s74", json: "s74", ron: "s74", ty: <u32 as Subject>::ty, skip: false, dflt: Dflt::Value(|| dflt_63_0().to_val()), is_opt: false, null_none: false, type_default: Some(|| <u32 as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P63 { s74: Subject::from_val(&x[0]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.s74.to_val()]) }
}
fn dflt_63_0() -> u32 { <u32 as Subject>::from_val(&vcore::gen::sample::<u32>(930342044)) }
#[derive(SerBin, SerJson, SerRon)]
// plain comment
pub struct P63Lent<'a>  {
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
#[nserde(default_with = "self::dflt_63_0")]
#[doc = "attr docs"]
s74: &'a u32
}
pub struct P63View(P63);
impl Subject for P63View { const TY: TyRef = <P63 as Subject>::TY; fn from_val(v: &Val) -> Self { P63View(Subject::from_val(v)) } fn to_val(&self) -> Val { self.0.to_val() } }
impl SerBin for P63View { fn ser_bin(&self, s: &mut Vec<u8>) { match &self.0 { P63 { s74: x0 } => P63Lent { s74: x0 }.ser_bin(s), } } }
impl DeBin for P63View { fn de_bin(o: &mut usize, d: &[u8]) -> Result<Self, nanoserde::DeBinErr> { Ok(P63View(DeBin::de_bin(o, d)?)) } }
impl SerJson for P63View { fn ser_json(&self, d: usize, s: &mut nanoserde::SerJsonState) { match &self.0 { P63 { s74: x0 } => P63Lent { s74: x0 }.ser_json(d, s), } } }
impl DeJson for P63View { fn de_json(s: &mut nanoserde::DeJsonState, i: &mut core::str::Chars) -> Result<Self, nanoserde::DeJsonErr> { Ok(P63View(DeJson::de_json(s, i)?)) } }
impl SerRon for P63View { fn ser_ron(&self, d: usize, s: &mut nanoserde::SerRonState) { match &self.0 { P63 { s74: x0 } => P63Lent { s74: x0 }.ser_ron(d, s), } } }
impl DeRon for P63View { fn de_ron(s: &mut nanoserde::DeRonState, i: &mut core::str::Chars) -> Result<Self, nanoserde::DeRonErr> { Ok(P63View(DeRon::de_ron(s, i)?)) } }

#[derive(nanoserde::SerBin, nanoserde::SerJson, nanoserde::DeRon, nanoserde::SerRon, nanoserde::DeJson)]
#[derive(nanoserde::DeBin)]
pub struct P64(#[allow(unused, non_snake_case)]
P58,) ;
impl Subject for P64  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P64", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <P58 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P64(Subject::from_val(&x[0])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val()]) }
}


#[derive(DeJson, Default, SerBin, DeBin, SerRon, SerJson, DeRon)]
#[doc = "attr docs"]
#[allow(clippy::all)] pub(crate) enum P65  {
    #[doc = "attr docs"]
#[default]
Some,
    #[allow(unused, non_snake_case)]
#[nserde(rename = r#"E"#,)]
#[allow(unused, non_snake_case)]
F,
    TRUE,
    #[allow(unused, non_snake_case)]
null(P58, Box<P65>,),
}
impl Subject for P65 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P65", variants: &[
        VariantDef { name: "Some", json: "Some", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "F", json: "E", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "TRUE", json: "TRUE", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "null", json: "null", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <P58 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "", json: "", ron: "", ty: <Box<P65> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::Some, 1 => Self::F, 2 => Self::TRUE, 3 => Self::null(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::Some => Val::Enum(0, vec![]), Self::F => Val::Enum(1, vec![]), Self::TRUE => Val::Enum(2, vec![]), Self::null(b0, b1) => Val::Enum(3, vec![b0.to_val(), b1.to_val()]), } }
}


macro_rules! mk_P66 { ($a0:ty, $a1:ty, $a2:vis,) => {
#[derive(DeBin, DeRon, SerRon, SerJson, SerBin, DeJson)]
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
$a2 struct P66<Item: Marker + Known<Ty = u8>, const N: usize> where Item: DeJsonOwned {
    // plain comment
pub Y: u16,
    #[nserde(rename = "chars")]
#[cfg(all())]
pub t: Box<OptAlias>,
    /** block docs */
#[nserde(skip)]
// plain comment
pub(super) r#where: $a0,
    pub i: $a1,
}
} }
mk_P66!(Duration, Box<Item>, pub(crate),);
impl<Item: Marker + Known<Ty = u8> + DeJsonOwned + Subject, const N: usize> Subject for P66<Item, N>  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P66", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "Y", json: "Y", ron: "Y", ty: <u16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u16 as Default>::default().to_val()) },
        FieldDef { name: "t", json: "chars", ron: "chars", ty: <Box<OptAlias> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Box<OptAlias> as Default>::default().to_val()) },
        FieldDef { name: "r#where", json: "where", ron: "where", ty: <Duration as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Duration as Default>::default().to_val()) },
        FieldDef { name: "i", json: "i", ron: "i", ty: <Box<Item> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P66 { Y: Subject::from_val(&x[0]), t: Subject::from_val(&x[1]), r#where: Subject::from_val(&x[2]), i: Subject::from_val(&x[3]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.Y.to_val(), self.t.to_val(), self.r#where.to_val(), self.i.to_val()]) }
}


macro_rules! mk_P67 { ($a0:meta, $a1:ty, $a2:ty, $a3:ty, $a4:ty, $a5:vis,) => {
#[derive(DeRon, SerBin, Default, DeBin, DeJson, SerRon, SerJson)]
#[cfg(all())]
$a5 struct P67  {
    /** block docs */
#[nserde(skip)]
pub d1: u8,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
#[$a0]
pub Z: $a1,
    /** block docs */
pub(crate) z: $a2,
    pub r: $a3,
    #[doc = "attr docs"]
#[nserde(default = "\"a\" != 'b'.to_string()")]
#[allow(dead_code)]
pub msg: bool,
    #[nserde(serialize_none_as_null,)]
pub(super) NULL: $a4,
}
} }
mk_P67!(nserde(skip,), Vec<[u8; 3usize]>, P52, i64, core::option::Option<(u64, u8, u8,)>, pub,);
impl Subject for P67  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P67", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "d1", json: "d1", ron: "d1", ty: <u8 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "Z", json: "Z", ron: "Z", ty: <Vec<[u8; 3usize]> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<[u8; 3usize]> as Default>::default().to_val()) },
        FieldDef { name: "z", json: "z", ron: "z", ty: <P52 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <P52 as Default>::default().to_val()) },
        FieldDef { name: "r", json: "r", ron: "r", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) },
        FieldDef { name: "msg", json: "msg", ron: "msg", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: bool = true; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) },
        FieldDef { name: "NULL", json: "NULL", ron: "NULL", ty: <core::option::Option<(u64, u8, u8,)> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <core::option::Option<(u64, u8, u8,)> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P67 { d1: Subject::from_val(&x[0]), Z: Subject::from_val(&x[1]), z: Subject::from_val(&x[2]), r: Subject::from_val(&x[3]), msg: Subject::from_val(&x[4]), NULL: Subject::from_val(&x[5]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.d1.to_val(), self.Z.to_val(), self.z.to_val(), self.r.to_val(), self.msg.to_val(), self.NULL.to_val()]) }
}


#[derive(SerJson, SerBin, DeRon, DeJson, SerRon, DeBin)]
#[nserde(transparent)]
#[allow(unused, non_snake_case)]
pub(crate) struct P68(pub P58, pub P48, #[cfg(all())]
pub(crate) f64, pub(crate) Option<P53<Vec<u16>, 'x'>>,) ;
impl Subject for P68  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P68", kind: Kind::Tuple, transparent: true, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <P58 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "", json: "", ron: "", ty: <P48 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "", json: "", ron: "", ty: <f64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f64 as Default>::default().to_val()) },
        FieldDef { name: "", json: "", ron: "", ty: <Option<P53<Vec<u16>, 'x'>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<P53<Vec<u16>, 'x'>> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P68(Subject::from_val(&x[0]), Subject::from_val(&x[1]), Subject::from_val(&x[2]), Subject::from_val(&x[3])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val(), self.1.to_val(), self.2.to_val(), self.3.to_val()]) }
}

#[derive(SerBin, SerJson, SerRon)]
#[nserde(transparent)]
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
pub struct P68Lent<'a, 'b: 'a, F0: 'b>(#[cfg(all())]
&'a P58, // plain comment
&'b P48, #[allow(unused, non_snake_case)]
&'b F0, #[allow(dead_code)]
&'a Option<P53<Vec<u16>, 'x'>>) where 'b: 'a;
pub struct P68View(P68);
impl Subject for P68View { const TY: TyRef = <P68 as Subject>::TY; fn from_val(v: &Val) -> Self { P68View(Subject::from_val(v)) } fn to_val(&self) -> Val { self.0.to_val() } }
impl SerBin for P68View { fn ser_bin(&self, s: &mut Vec<u8>) { match &self.0 { P68(x0, x1, x2, x3) => P68Lent(x0, x1, x2, x3).ser_bin(s), } } }
impl DeBin for P68View { fn de_bin(o: &mut usize, d: &[u8]) -> Result<Self, nanoserde::DeBinErr> { Ok(P68View(DeBin::de_bin(o, d)?)) } }
impl SerJson for P68View { fn ser_json(&self, d: usize, s: &mut nanoserde::SerJsonState) { match &self.0 { P68(x0, x1, x2, x3) => P68Lent(x0, x1, x2, x3).ser_json(d, s), } } }
impl DeJson for P68View { fn de_json(s: &mut nanoserde::DeJsonState, i: &mut core::str::Chars) -> Result<Self, nanoserde::DeJsonErr> { Ok(P68View(DeJson::de_json(s, i)?)) } }
impl SerRon for P68View { fn ser_ron(&self, d: usize, s: &mut nanoserde::SerRonState) { match &self.0 { P68(x0, x1, x2, x3) => P68Lent(x0, x1, x2, x3).ser_ron(d, s), } } }
impl DeRon for P68View { fn de_ron(s: &mut nanoserde::DeRonState, i: &mut core::str::Chars) -> Result<Self, nanoserde::DeRonErr> { Ok(P68View(DeRon::de_ron(s, i)?)) } }

#[derive(SerJson, PartialEq)]
#[derive(Hash, DeBin, SerRon, Default, DeJson, DeRon, Eq, Ord, PartialOrd, SerBin)]
#[allow(unused, non_snake_case)]
#[nserde(crate = "nanoserde")]
#[allow(clippy::all)] pub enum P69  {
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
#[default]
Blue,
    /** block docs */
camelCase,
    /** block docs */
r#async,
}
impl Subject for P69 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P69", variants: &[
        VariantDef { name: "Blue", json: "Blue", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "camelCase", json: "camelCase", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "async", json: "async", kind: Kind::Unit, fields: &[] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::Blue, 1 => Self::camelCase, 2 => Self::r#async, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::Blue => Val::Enum(0, vec![]), Self::camelCase => Val::Enum(1, vec![]), Self::r#async => Val::Enum(2, vec![]), } }
}


#[derive(DeRon, DeJson, SerJson, SerRon)]
#[doc = "attr docs"]
pub struct P70  {
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
kind: P51Big,
    pub __y: std::vec::Vec<String>,
}
impl Subject for P70  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P70", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "kind", json: "kind", ron: "kind", ty: <P51Big as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "__y", json: "__y", ron: "__y", ty: <std::vec::Vec<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::vec::Vec<String> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P70 { kind: Subject::from_val(&x[0]), __y: Subject::from_val(&x[1]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.kind.to_val(), self.__y.to_val()]) }
}


#[derive(DeRon, DeBin, SerBin, SerRon)]
// plain comment
#[allow(clippy::all)] pub enum P71  {
    // plain comment
West {
line: (),
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
#[nserde(skip)]
#[allow(dead_code)]
field: P52,
/** block docs */
h36: [u32; 0]
},
}
impl Subject for P71 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P71", variants: &[
        VariantDef { name: "West", json: "West", kind: Kind::Named, fields: &[FieldDef { name: "line", json: "line", ron: "line", ty: <() as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <() as Default>::default().to_val()) }, FieldDef { name: "field", json: "field", ron: "field", ty: <P52 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <P52 as Default>::default().to_val()) }, FieldDef { name: "h36", json: "h36", ron: "h36", ty: <[u32; 0] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <[u32; 0] as Default>::default().to_val()) }] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::West { line: Subject::from_val(&x_[0]), field: Subject::from_val(&x_[1]), h36: Subject::from_val(&x_[2]) }, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::West { line: b0, field: b1, h36: b2 } => Val::Enum(0, vec![b0.to_val(), b1.to_val(), b2.to_val()]), } }
}


#[derive(SerJson, DeJson, Default, SerBin, DeRon, DeBin, SerRon)]
#[allow(clippy::all)] pub enum P72  {
    #[allow(dead_code)]
#[default]
E1,
    #[doc = "attr docs"]
First = 2
}
impl Subject for P72 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P72", variants: &[
        VariantDef { name: "E1", json: "E1", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "First", json: "First", kind: Kind::Unit, fields: &[] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::E1, 1 => Self::First, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::E1 => Val::Enum(0, vec![]), Self::First => Val::Enum(1, vec![]), } }
}


macro_rules! mk_P73 { ($a0:expr, $a1:ty, $a2:vis,) => {
#[derive(DeJson, SerBin, SerRon, DeBin, DeRon, SerJson)]
$a2 struct P73<U: SerJsonX + Clone, T: SerJsonX + Clone>  {
    #[nserde(rename = $a0,)]
#[allow(unused, non_snake_case)]
pub f: std::vec::Vec<U>,
    #[allow(unused, non_snake_case)]
pub u8_: f32,
    pub b48: $a1,
}
} }
mk_P73!("chars", Vec<T>, pub(crate),);
impl<U: SerJsonX + Clone + Subject, T: SerJsonX + Clone + Subject> Subject for P73<U, T>  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P73", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "f", json: "chars", ron: "chars", ty: <std::vec::Vec<U> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::vec::Vec<U> as Default>::default().to_val()) },
        FieldDef { name: "u8_", json: "u8_", ron: "u8_", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) },
        FieldDef { name: "b48", json: "b48", ron: "b48", ty: <Vec<T> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P73 { f: Subject::from_val(&x[0]), u8_: Subject::from_val(&x[1]), b48: Subject::from_val(&x[2]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f.to_val(), self.u8_.to_val(), self.b48.to_val()]) }
}


#[derive(DeBin, DeRon, SerRon, SerBin)]
#[allow(dead_code)]
pub struct P74  {
    pub c51: P59
}
impl Subject for P74  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P74", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "c51", json: "c51", ron: "c51", ty: <P59 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P74 { c51: Subject::from_val(&x[0]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.c51.to_val()]) }
}


#[allow(unused, non_snake_case)]
#[derive(SerJson, DeJson, Default)]
pub struct P75  {
    j20: Option<P70>,
    pub nan: Option<P67>
}
impl Subject for P75  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P75", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "j20", json: "j20", ron: "j20", ty: <Option<P70> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<P70> as Default>::default().to_val()) },
        FieldDef { name: "nan", json: "nan", ron: "nan", ty: <Option<P67> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<P67> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P75 { j20: Subject::from_val(&x[0]), nan: Subject::from_val(&x[1]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.j20.to_val(), self.nan.to_val()]) }
}


#[derive(SerJson, DeBin, SerRon, DeJson, DeRon, SerBin)]
// plain comment
pub(crate) struct P76<T: SerJsonX + Clone> where (T, u8): Clone {
    r68: Option<String>,
    #[nserde(rename = "col")]
// plain comment
pub(super) alloc_: u8,
    pub(super) z: ::std::option::Option<T>,
    #[allow(dead_code)]
pub list: T,
    /** block docs */
pub(super) x: T
}
impl<T: SerJsonX + Clone + Clone + Subject> Subject for P76<T>  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P76", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "r68", json: "r68", ron: "r68", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "alloc_", json: "col", ron: "col", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "z", json: "z", ron: "z", ty: <::std::option::Option<T> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <::std::option::Option<T> as Default>::default().to_val()) },
        FieldDef { name: "list", json: "list", ron: "list", ty: <T as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "x", json: "x", ron: "x", ty: <T as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P76 { r68: Subject::from_val(&x[0]), alloc_: Subject::from_val(&x[1]), z: Subject::from_val(&x[2]), list: Subject::from_val(&x[3]), x: Subject::from_val(&x[4]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.r68.to_val(), self.alloc_.to_val(), self.z.to_val(), self.list.to_val(), self.x.to_val()]) }
}


#[derive(DeJson)]
#[derive(SerJson)]
#[allow(clippy::all)] pub enum P77<A1, Item: Known<Ty = u8>, const N: usize> where Item: DeJsonOwned, [Item; 2]: Clone, [Item; 2]: Clone, {
    #[allow(dead_code)]
r#mod {
#[allow(unused, non_snake_case)]
#[nserde(skip)]
u15: Option<[A1; N]>
},
    /** block docs */
some(u8, Option<P69>, std::option::Option<P76<String>>,),
    VeryLongVariantNameThatGoesOnAndOn(Option<Duration>, [A1; N], Option<u16>, Option<Item>, Option<u64>,),
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
TRUE {
#[allow(dead_code)]
#[nserde(default)]
rename_: Option<f64>,
// plain comment
#[nserde(rename = "id")]
a: std::vec::Vec<f64>,
},
    // plain comment
SHOUT(Option<bool>, Option<Duration>, Option<A1>, Option<[u8; N]>, Option<std::vec::Vec<u32>>),
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
Y_1(A1,),
    // plain comment
Unit,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
False,
    nan(usize),
    #[allow(dead_code)]
NONE(std::option::Option<Vec<bool>>, usize),
    #[doc = "attr docs"]
A,
    Err {

}
}
impl<A1: Subject, Item: Known<Ty = u8> + DeJsonOwned + Clone + Subject, const N: usize> Subject for P77<A1, Item, N> {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P77", variants: &[
        VariantDef { name: "mod", json: "mod", kind: Kind::Named, fields: &[FieldDef { name: "u15", json: "u15", ron: "u15", ty: <Option<[A1; N]> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<[A1; N]> as Default>::default().to_val()) }] },
        VariantDef { name: "some", json: "some", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <Option<P69> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<P69> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <std::option::Option<P76<String>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <std::option::Option<P76<String>> as Default>::default().to_val()) }] },
        VariantDef { name: "VeryLongVariantNameThatGoesOnAndOn", json: "VeryLongVariantNameThatGoesOnAndOn", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <Option<Duration> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Duration> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <[A1; N] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "", json: "", ron: "", ty: <Option<u16> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<u16> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <Option<Item> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Item> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <Option<u64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<u64> as Default>::default().to_val()) }] },
        VariantDef { name: "TRUE", json: "TRUE", kind: Kind::Named, fields: &[FieldDef { name: "rename_", json: "rename_", ron: "rename_", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }, FieldDef { name: "a", json: "id", ron: "id", ty: <std::vec::Vec<f64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::vec::Vec<f64> as Default>::default().to_val()) }] },
        VariantDef { name: "SHOUT", json: "SHOUT", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <Option<Duration> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Duration> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <Option<A1> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<A1> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <Option<[u8; N]> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<[u8; N]> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <Option<std::vec::Vec<u32>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<std::vec::Vec<u32>> as Default>::default().to_val()) }] },
        VariantDef { name: "Y_1", json: "Y_1", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <A1 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] },
        VariantDef { name: "Unit", json: "Unit", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "False", json: "False", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "nan", json: "nan", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <usize as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <usize as Default>::default().to_val()) }] },
        VariantDef { name: "NONE", json: "NONE", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <std::option::Option<Vec<bool>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <std::option::Option<Vec<bool>> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <usize as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <usize as Default>::default().to_val()) }] },
        VariantDef { name: "A", json: "A", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Err", json: "Err", kind: Kind::Named, fields: &[] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::r#mod { u15: Subject::from_val(&x_[0]) }, 1 => Self::some(Subject::from_val(&x_[0]), Subject::from_val(&x_[1]), Subject::from_val(&x_[2])), 2 => Self::VeryLongVariantNameThatGoesOnAndOn(Subject::from_val(&x_[0]), Subject::from_val(&x_[1]), Subject::from_val(&x_[2]), Subject::from_val(&x_[3]), Subject::from_val(&x_[4])), 3 => Self::TRUE { rename_: Subject::from_val(&x_[0]), a: Subject::from_val(&x_[1]) }, 4 => Self::SHOUT(Subject::from_val(&x_[0]), Subject::from_val(&x_[1]), Subject::from_val(&x_[2]), Subject::from_val(&x_[3]), Subject::from_val(&x_[4])), 5 => Self::Y_1(Subject::from_val(&x_[0])), 6 => Self::Unit, 7 => Self::False, 8 => Self::nan(Subject::from_val(&x_[0])), 9 => Self::NONE(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), 10 => Self::A, 11 => Self::Err {  }, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::r#mod { u15: b0 } => Val::Enum(0, vec![b0.to_val()]), Self::some(b0, b1, b2) => Val::Enum(1, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::VeryLongVariantNameThatGoesOnAndOn(b0, b1, b2, b3, b4) => Val::Enum(2, vec![b0.to_val(), b1.to_val(), b2.to_val(), b3.to_val(), b4.to_val()]), Self::TRUE { rename_: b0, a: b1 } => Val::Enum(3, vec![b0.to_val(), b1.to_val()]), Self::SHOUT(b0, b1, b2, b3, b4) => Val::Enum(4, vec![b0.to_val(), b1.to_val(), b2.to_val(), b3.to_val(), b4.to_val()]), Self::Y_1(b0) => Val::Enum(5, vec![b0.to_val()]), Self::Unit => Val::Enum(6, vec![]), Self::False => Val::Enum(7, vec![]), Self::nan(b0) => Val::Enum(8, vec![b0.to_val()]), Self::NONE(b0, b1) => Val::Enum(9, vec![b0.to_val(), b1.to_val()]), Self::A => Val::Enum(10, vec![]), Self::Err {  } => Val::Enum(11, vec![]), } }
}


#[derive(nanoserde::DeRon, nanoserde::SerBin, nanoserde::DeJson, nanoserde::DeBin)]
#[derive(nanoserde::SerRon, nanoserde::SerJson)]
/** block docs */
#[allow(clippy::all)] pub(crate) enum P78  {
    #[cfg(all())]
NONE(BTreeSet<P69>, u16,),
    #[allow(unused, non_snake_case)]
Green,
    Some_(u8,)
}
impl Subject for P78 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P78", variants: &[
        VariantDef { name: "NONE", json: "NONE", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <BTreeSet<P69> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeSet<P69> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <u16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u16 as Default>::default().to_val()) }] },
        VariantDef { name: "Green", json: "Green", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Some_", json: "Some_", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::NONE(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), 1 => Self::Green, 2 => Self::Some_(Subject::from_val(&x_[0])), _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::NONE(b0, b1) => Val::Enum(0, vec![b0.to_val(), b1.to_val()]), Self::Green => Val::Enum(1, vec![]), Self::Some_(b0) => Val::Enum(2, vec![b0.to_val()]), } }
}


#[derive(DeBin, SerRon, DeJson, SerBin, SerJson, DeRon)]
#[allow(clippy::all)] pub enum P79  {
    #[doc = "attr docs"]
Struct,
    South((u8, Box<P79>)),
}
impl Subject for P79 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P79", variants: &[
        VariantDef { name: "Struct", json: "Struct", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "South", json: "South", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <(u8, Box<P79>) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::Struct, 1 => Self::South(Subject::from_val(&x_[0])), _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::Struct => Val::Enum(0, vec![]), Self::South(b0) => Val::Enum(1, vec![b0.to_val()]), } }
}


#[derive(nanoserde::SerRon, nanoserde::SerJson, nanoserde::DeJson, nanoserde::DeBin, nanoserde::DeRon, nanoserde::SerBin)]
#[allow(clippy::all)] pub enum P80  {
    #[allow(dead_code)]
#[nserde(rename = r".")]
/** block docs */
Unit(),
    true_ {
r#struct: P69
},
    Qux(([Duration; 3], i64, (String, i8)), Box<LinkedList<f32>>, u16),
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
North(BTreeMap<String, Box<u16>>, Duration)
}
impl Subject for P80 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P80", variants: &[
        VariantDef { name: "Unit", json: ".", kind: Kind::Tuple, fields: &[] },
        VariantDef { name: "true_", json: "true_", kind: Kind::Named, fields: &[FieldDef { name: "r#struct", json: "struct", ron: "struct", ty: <P69 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <P69 as Default>::default().to_val()) }] },
        VariantDef { name: "Qux", json: "Qux", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <([Duration; 3], i64, (String, i8)) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <([Duration; 3], i64, (String, i8)) as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <Box<LinkedList<f32>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Box<LinkedList<f32>> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <u16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u16 as Default>::default().to_val()) }] },
        VariantDef { name: "North", json: "North", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <BTreeMap<String, Box<u16>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, Box<u16>> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <Duration as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Duration as Default>::default().to_val()) }] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::Unit(), 1 => Self::true_ { r#struct: Subject::from_val(&x_[0]) }, 2 => Self::Qux(Subject::from_val(&x_[0]), Subject::from_val(&x_[1]), Subject::from_val(&x_[2])), 3 => Self::North(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::Unit() => Val::Enum(0, vec![]), Self::true_ { r#struct: b0 } => Val::Enum(1, vec![b0.to_val()]), Self::Qux(b0, b1, b2) => Val::Enum(2, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::North(b0, b1) => Val::Enum(3, vec![b0.to_val(), b1.to_val()]), } }
}

#[derive(SerBin, SerJson, SerRon)]
#[allow(unused, non_snake_case)]
pub enum P80Lent<'a>  {
#[cfg(all())]
#[nserde(rename = r".")]
Unit(),
true_ {
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
r#struct: &'a P69
},
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
Qux(&'a ([Duration; 3], i64, (String, i8)), &'a Box<LinkedList<f32>>, /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
&'a u16),
#[cfg(all())]
North(// plain comment
&'a BTreeMap<String, Box<u16>>, /** block docs */
&'a Duration)
}
pub struct P80View(P80);
impl Subject for P80View { const TY: TyRef = <P80 as Subject>::TY; fn from_val(v: &Val) -> Self { P80View(Subject::from_val(v)) } fn to_val(&self) -> Val { self.0.to_val() } }
impl SerBin for P80View { fn ser_bin(&self, s: &mut Vec<u8>) { match &self.0 { P80::Unit() => P80Lent::Unit().ser_bin(s), P80::true_ { r#struct: x0 } => P80Lent::true_ { r#struct: x0 }.ser_bin(s), P80::Qux(x0, x1, x2) => P80Lent::Qux(x0, x1, x2).ser_bin(s), P80::North(x0, x1) => P80Lent::North(x0, x1).ser_bin(s), } } }
impl DeBin for P80View { fn de_bin(o: &mut usize, d: &[u8]) -> Result<Self, nanoserde::DeBinErr> { Ok(P80View(DeBin::de_bin(o, d)?)) } }
impl SerJson for P80View { fn ser_json(&self, d: usize, s: &mut nanoserde::SerJsonState) { match &self.0 { P80::Unit() => P80Lent::Unit().ser_json(d, s), P80::true_ { r#struct: x0 } => P80Lent::true_ { r#struct: x0 }.ser_json(d, s), P80::Qux(x0, x1, x2) => P80Lent::Qux(x0, x1, x2).ser_json(d, s), P80::North(x0, x1) => P80Lent::North(x0, x1).ser_json(d, s), } } }
impl DeJson for P80View { fn de_json(s: &mut nanoserde::DeJsonState, i: &mut core::str::Chars) -> Result<Self, nanoserde::DeJsonErr> { Ok(P80View(DeJson::de_json(s, i)?)) } }
impl SerRon for P80View { fn ser_ron(&self, d: usize, s: &mut nanoserde::SerRonState) { match &self.0 { P80::Unit() => P80Lent::Unit().ser_ron(d, s), P80::true_ { r#struct: x0 } => P80Lent::true_ { r#struct: x0 }.ser_ron(d, s), P80::Qux(x0, x1, x2) => P80Lent::Qux(x0, x1, x2).ser_ron(d, s), P80::North(x0, x1) => P80Lent::North(x0, x1).ser_ron(d, s), } } }
impl DeRon for P80View { fn de_ron(s: &mut nanoserde::DeRonState, i: &mut core::str::Chars) -> Result<Self, nanoserde::DeRonErr> { Ok(P80View(DeRon::de_ron(s, i)?)) } }

#[derive(DeJson, Default, SerJson)]
pub(crate) struct P81  {
    #[allow(unused, non_snake_case)]
pub f1: Option<Box<P81>>,
    // plain comment
#[nserde(proxy = "XP81_1",)]
pub(crate) f: Option<WP81_0>,
    #[allow(dead_code)]
#[nserde(serialize_none_as_null)]
pub o2: Option<P76<bool>>,
    #[allow(unused, non_snake_case)]
pub r1: Option<Box<P81>>
}
impl Subject for P81  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P81", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "f1", json: "f1", ron: "f1", ty: <Option<Box<P81>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Box<P81>> as Default>::default().to_val()) },
        FieldDef { name: "f", json: "f", ron: "f", ty: <Option<WP81_0> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<WP81_0> as Default>::default().to_val()) },
        FieldDef { name: "o2", json: "o2", ron: "o2", ty: <Option<P76<bool>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<P76<bool>> as Default>::default().to_val()) },
        FieldDef { name: "r1", json: "r1", ron: "r1", ty: <Option<Box<P81>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Box<P81>> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P81 { f1: Subject::from_val(&x[0]), f: Subject::from_val(&x[1]), o2: Subject::from_val(&x[2]), r1: Subject::from_val(&x[3]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f1.to_val(), self.f.to_val(), self.o2.to_val(), self.r1.to_val()]) }
}
#[derive(DeJson, SerJson)]
 pub struct XP81_1 { pub inner: i32, pub more: bool }
impl Subject for XP81_1  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "XP81_1", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "inner", json: "inner", ron: "inner", ty: <i32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "more", json: "more", ron: "more", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); XP81_1 { inner: Subject::from_val(&x[0]), more: Subject::from_val(&x[1]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.inner.to_val(), self.more.to_val()]) }
}
pub struct WP81_0(pub Val);
impl Default for WP81_0 { fn default() -> Self { WP81_0(vcore::gen::sample::<XP81_1>(196922272)) } }
impl Subject for WP81_0 { const TY: TyRef = <XP81_1 as Subject>::TY; fn from_val(v: &Val) -> Self { WP81_0(v.clone()) } fn to_val(&self) -> Val { self.0.clone() } }
impl From<&WP81_0> for XP81_1 { fn from(x: &WP81_0) -> Self { Subject::from_val(&x.0) } }
impl From<&XP81_1> for WP81_0 { fn from(x: &XP81_1) -> Self { WP81_0(x.to_val()) } }

#[derive(nanoserde::SerJson, nanoserde::DeBin, nanoserde::SerBin, nanoserde::DeJson)]
 pub struct P82Px { via: Vec<Option<u64>>, flag: bool }
impl Subject for P82Px  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P82Px", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "via", json: "via", ron: "via", ty: <Vec<Option<u64>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<Option<u64>> as Default>::default().to_val()) },
        FieldDef { name: "flag", json: "flag", ron: "flag", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P82Px { via: Subject::from_val(&x[0]), flag: Subject::from_val(&x[1]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.via.to_val(), self.flag.to_val()]) }
}
#[derive(nanoserde::SerJson, nanoserde::DeBin, nanoserde::SerBin, nanoserde::DeJson)]
 #[nserde(proxy = "P82Px")]
pub struct P82 { hidden: Val }
impl Subject for P82 { const TY: TyRef = <P82Px as Subject>::TY; fn from_val(v: &Val) -> Self { let v = v.clone(); P82 { hidden: v } } fn to_val(&self) -> Val { self.hidden.clone() } }
impl From<&P82> for P82Px { fn from(x: &P82) -> Self { Subject::from_val(&x.hidden) } }
impl From<&P82Px> for P82 { fn from(x: &P82Px) -> Self { let v = x.to_val(); P82 { hidden: v } } }

#[derive(DeRon, SerRon)]
#[nserde(default)]
pub struct P83  {
    #[allow(dead_code)]
#[nserde(rename = r"last",)]
// plain comment
pub q83: u32,
    pub skip: Option<Box<P83>>,
}
impl Subject for P83  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P83", kind: Kind::Named, transparent: false, container_default: true, fields: &[
        FieldDef { name: "q83", json: "last", ron: "last", ty: <u32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u32 as Default>::default().to_val()) },
        FieldDef { name: "skip", json: "skip", ron: "skip", ty: <Option<Box<P83>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Box<P83>> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P83 { q83: Subject::from_val(&x[0]), skip: Subject::from_val(&x[1]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.q83.to_val(), self.skip.to_val()]) }
}


#[derive(DeJson, SerJson)]
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
pub(in crate) struct P84<T: Marker, K: DeRonLike + MySerJson> where K: DeJsonOwned, K: 'static, Vec<K>: Clone, Vec<K>: Clone {
    #[doc = "attr docs"]
pub(super) r1: i32,
    #[allow(dead_code)]
pub some: T,
    pub(super) key: Option<i16>,
    #[doc = "attr docs"]
#[nserde(serialize_none_as_null)]
#[allow(unused, non_snake_case)]
pub line: ::std::option::Option<Duration>,
    #[allow(dead_code)]
d1: std::vec::Vec<Option<u64>>,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
pub o: Box<K>
}
impl<T: Marker + Subject, K: DeRonLike + MySerJson + DeJsonOwned + Clone + Subject> Subject for P84<T, K>  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P84", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "r1", json: "r1", ron: "r1", ty: <i32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i32 as Default>::default().to_val()) },
        FieldDef { name: "some", json: "some", ron: "some", ty: <T as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "key", json: "key", ron: "key", ty: <Option<i16> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<i16> as Default>::default().to_val()) },
        FieldDef { name: "line", json: "line", ron: "line", ty: <::std::option::Option<Duration> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <::std::option::Option<Duration> as Default>::default().to_val()) },
        FieldDef { name: "d1", json: "d1", ron: "d1", ty: <std::vec::Vec<Option<u64>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::vec::Vec<Option<u64>> as Default>::default().to_val()) },
        FieldDef { name: "o", json: "o", ron: "o", ty: <Box<K> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P84 { r1: Subject::from_val(&x[0]), some: Subject::from_val(&x[1]), key: Subject::from_val(&x[2]), line: Subject::from_val(&x[3]), d1: Subject::from_val(&x[4]), o: Subject::from_val(&x[5]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.r1.to_val(), self.some.to_val(), self.key.to_val(), self.line.to_val(), self.d1.to_val(), self.o.to_val()]) }
}


#[derive(SerJson, DeJson)]
pub struct P85<Item: Marker + Known<Ty = u8>, const N: usize> where Item: Clone + Marker, Item: 'static, {
    pub(super) f: Option<[u8; N]>,
    #[doc = "attr docs"]
pub(super) l18: Option<Vec<[u32; 0]>>,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
pub o18: std::collections::BTreeSet<P69>,
    #[allow(unused, non_snake_case)]
pub j4: Item,
}
impl<Item: Marker + Known<Ty = u8> + Clone + Marker + Subject, const N: usize> Subject for P85<Item, N>  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P85", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "f", json: "f", ron: "f", ty: <Option<[u8; N]> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<[u8; N]> as Default>::default().to_val()) },
        FieldDef { name: "l18", json: "l18", ron: "l18", ty: <Option<Vec<[u32; 0]>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<[u32; 0]>> as Default>::default().to_val()) },
        FieldDef { name: "o18", json: "o18", ron: "o18", ty: <std::collections::BTreeSet<P69> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::collections::BTreeSet<P69> as Default>::default().to_val()) },
        FieldDef { name: "j4", json: "j4", ron: "j4", ty: <Item as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P85 { f: Subject::from_val(&x[0]), l18: Subject::from_val(&x[1]), o18: Subject::from_val(&x[2]), j4: Subject::from_val(&x[3]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f.to_val(), self.l18.to_val(), self.o18.to_val(), self.j4.to_val()]) }
}


#[derive(SerBin, DeBin, DeRon, Default, SerRon)]
#[cfg(all())]
#[allow(clippy::all)] pub enum P86  {
    #[default]
True,
    #[doc = "attr docs"]
D {
tok: u8,
alloc_: i64,
name: HashMap<String, (i32, i64)>,
a63: Box<P86>,
},
    #[nserde(rename = r"South")]
r#break,
    #[allow(unused, non_snake_case)]
Box,
    NULL {
numbuf: P66<bool, 0>,
#[cfg(all())]
d1: (u8, Box<P86>)
},
    Err_ {
#[cfg(all())]
#[nserde(rename = "NULL")]
#[nserde(default)]
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
#[doc = "attr docs"]
d50: i16,
#[doc = "attr docs"]
label: Vec<P86>
}
}
impl Subject for P86 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P86", variants: &[
        VariantDef { name: "True", json: "True", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "D", json: "D", kind: Kind::Named, fields: &[FieldDef { name: "tok", json: "tok", ron: "tok", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }, FieldDef { name: "alloc_", json: "alloc_", ron: "alloc_", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }, FieldDef { name: "name", json: "name", ron: "name", ty: <HashMap<String, (i32, i64)> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <HashMap<String, (i32, i64)> as Default>::default().to_val()) }, FieldDef { name: "a63", json: "a63", ron: "a63", ty: <Box<P86> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] },
        VariantDef { name: "break", json: "South", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Box", json: "Box", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "NULL", json: "NULL", kind: Kind::Named, fields: &[FieldDef { name: "numbuf", json: "numbuf", ron: "numbuf", ty: <P66<bool, 0> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "d1", json: "d1", ron: "d1", ty: <(u8, Box<P86>) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] },
        VariantDef { name: "Err_", json: "Err_", kind: Kind::Named, fields: &[FieldDef { name: "d50", json: "NULL", ron: "NULL", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }, FieldDef { name: "label", json: "label", ron: "label", ty: <Vec<P86> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::True, 1 => Self::D { tok: Subject::from_val(&x_[0]), alloc_: Subject::from_val(&x_[1]), name: Subject::from_val(&x_[2]), a63: Subject::from_val(&x_[3]) }, 2 => Self::r#break, 3 => Self::Box, 4 => Self::NULL { numbuf: Subject::from_val(&x_[0]), d1: Subject::from_val(&x_[1]) }, 5 => Self::Err_ { d50: Subject::from_val(&x_[0]), label: Subject::from_val(&x_[1]) }, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::True => Val::Enum(0, vec![]), Self::D { tok: b0, alloc_: b1, name: b2, a63: b3 } => Val::Enum(1, vec![b0.to_val(), b1.to_val(), b2.to_val(), b3.to_val()]), Self::r#break => Val::Enum(2, vec![]), Self::Box => Val::Enum(3, vec![]), Self::NULL { numbuf: b0, d1: b1 } => Val::Enum(4, vec![b0.to_val(), b1.to_val()]), Self::Err_ { d50: b0, label: b1 } => Val::Enum(5, vec![b0.to_val(), b1.to_val()]), } }
}

#[derive(SerBin, SerRon)]
/** block docs */
pub enum P86Lent<'a, 'b: 'a>  {
#[allow(dead_code)]
True,
/** block docs */
D {
/** block docs */
tok: &'a u8,
#[allow(dead_code)]
alloc_: &'b i64,
#[allow(dead_code)]
name: &'a HashMap<String, (i32, i64)>,
#[allow(dead_code)]
a63: &'b Box<P86>
},
#[cfg(all())]
#[nserde(rename = r"South")]
r#break,
Box,
/** block docs */
NULL {
#[allow(dead_code)]
numbuf: &'a P66<bool, 0>,
d1: &'b (u8, Box<P86>)
},
#[cfg(all())]
Err_ {
#[doc = "attr docs"]
#[nserde(rename = "NULL")]
#[nserde(default)]
#[doc = "attr docs"]
#[cfg(all())]
d50: &'a i16,
/** block docs */
label: &'a Vec<P86>
}
}
pub struct P86View(P86);
impl Subject for P86View { const TY: TyRef = <P86 as Subject>::TY; fn from_val(v: &Val) -> Self { P86View(Subject::from_val(v)) } fn to_val(&self) -> Val { self.0.to_val() } }
impl SerBin for P86View { fn ser_bin(&self, s: &mut Vec<u8>) { match &self.0 { P86::True => P86Lent::True.ser_bin(s), P86::D { tok: x0, alloc_: x1, name: x2, a63: x3 } => P86Lent::D { tok: x0, alloc_: x1, name: x2, a63: x3 }.ser_bin(s), P86::r#break => P86Lent::r#break.ser_bin(s), P86::Box => P86Lent::Box.ser_bin(s), P86::NULL { numbuf: x0, d1: x1 } => P86Lent::NULL { numbuf: x0, d1: x1 }.ser_bin(s), P86::Err_ { d50: x0, label: x1 } => P86Lent::Err_ { d50: x0, label: x1 }.ser_bin(s), } } }
impl DeBin for P86View { fn de_bin(o: &mut usize, d: &[u8]) -> Result<Self, nanoserde::DeBinErr> { Ok(P86View(DeBin::de_bin(o, d)?)) } }
impl SerRon for P86View { fn ser_ron(&self, d: usize, s: &mut nanoserde::SerRonState) { match &self.0 { P86::True => P86Lent::True.ser_ron(d, s), P86::D { tok: x0, alloc_: x1, name: x2, a63: x3 } => P86Lent::D { tok: x0, alloc_: x1, name: x2, a63: x3 }.ser_ron(d, s), P86::r#break => P86Lent::r#break.ser_ron(d, s), P86::Box => P86Lent::Box.ser_ron(d, s), P86::NULL { numbuf: x0, d1: x1 } => P86Lent::NULL { numbuf: x0, d1: x1 }.ser_ron(d, s), P86::Err_ { d50: x0, label: x1 } => P86Lent::Err_ { d50: x0, label: x1 }.ser_ron(d, s), } } }
impl DeRon for P86View { fn de_ron(s: &mut nanoserde::DeRonState, i: &mut core::str::Chars) -> Result<Self, nanoserde::DeRonErr> { Ok(P86View(DeRon::de_ron(s, i)?)) } }

#[derive(DeBin, DeRon, SerJson, SerBin, DeJson, SerRon)]
#[cfg(all())]
pub struct P87<Item: Marker + Known<Ty = u8>, const N: usize> where Item: DeJsonOwned {
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
pub(crate) nul: String,
    #[allow(unused, non_snake_case)]
pub(super) i45: u32,
    pub g5: Item,
}
impl<Item: Marker + Known<Ty = u8> + DeJsonOwned + Subject, const N: usize> Subject for P87<Item, N>  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P87", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "nul", json: "nul", ron: "nul", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "i45", json: "i45", ron: "i45", ty: <u32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u32 as Default>::default().to_val()) },
        FieldDef { name: "g5", json: "g5", ron: "g5", ty: <Item as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P87 { nul: Subject::from_val(&x[0]), i45: Subject::from_val(&x[1]), g5: Subject::from_val(&x[2]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.nul.to_val(), self.i45.to_val(), self.g5.to_val()]) }
}


#[derive(Default, SerJson, DeJson)]
pub struct P88  {

}
impl Subject for P88  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P88", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        ] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P88 {  } }
    fn to_val(&self) -> Val { Val::Rec(vec![]) }
}


#[derive(SerJson, DeRon)]
#[derive(DeJson, SerRon)]
#[nserde(serialize_none_as_null)]
pub struct P89<U: Clone, Item> where U: DeJsonOwned, U: Marker, Item: DeRonLike, {
    /** block docs */
pub last: Kc<','>,
    #[nserde(skip,)]
#[allow(dead_code)]
pub(crate) l20: Vec<u32>,
    #[nserde(default)]
/** block docs */
#[nserde(serialize_none_as_null)]
/** block docs */
#[allow(dead_code)]
pub buf: Option<LinkedList<usize>>,
    #[allow(unused, non_snake_case)]
pub(super) None: Vec<Item>,
    pub b: U,
}
impl<U: Clone + DeJsonOwned + Subject, Item: DeRonLike + Subject> Subject for P89<U, Item>  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P89", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "last", json: "last", ron: "last", ty: <Kc<','> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Kc<','> as Default>::default().to_val()) },
        FieldDef { name: "l20", json: "l20", ron: "l20", ty: <Vec<u32> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<u32> as Default>::default().to_val()) },
        FieldDef { name: "buf", json: "buf", ron: "buf", ty: <Option<LinkedList<usize>> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<LinkedList<usize>> as Default>::default().to_val()) },
        FieldDef { name: "None", json: "None", ron: "None", ty: <Vec<Item> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<Item> as Default>::default().to_val()) },
        FieldDef { name: "b", json: "b", ron: "b", ty: <U as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P89 { last: Subject::from_val(&x[0]), l20: Subject::from_val(&x[1]), buf: Subject::from_val(&x[2]), None: Subject::from_val(&x[3]), b: Subject::from_val(&x[4]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.last.to_val(), self.l20.to_val(), self.buf.to_val(), self.None.to_val(), self.b.to_val()]) }
}


#[derive(DeBin, DeRon, DeJson, SerBin, SerJson, SerRon)]
pub struct P90  {
    d: Option<P87<Vec<u16>, 0>>,
    #[doc = "attr docs"]
#[nserde(default_with = "dflt_90_0")]
#[allow(dead_code)]
out: String,
    pub(super) tok: std::vec::Vec<P78>,
    // plain comment
pub kind: (u8, Option<Duration>,),
    #[doc = "attr docs"]
pub s: Option<P76<String>>,
    // plain comment
#[nserde(default)]
pub(crate) z: Text,
}
impl Subject for P90  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P90", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "d", json: "d", ron: "d", ty: <Option<P87<Vec<u16>, 0>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<P87<Vec<u16>, 0>> as Default>::default().to_val()) },
        FieldDef { name: "out", json: "out", ron: "out", ty: <String as Subject>::ty, skip: false, dflt: Dflt::Value(|| dflt_90_0().to_val()), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "tok", json: "tok", ron: "tok", ty: <std::vec::Vec<P78> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::vec::Vec<P78> as Default>::default().to_val()) },
        FieldDef { name: "kind", json: "kind", ron: "kind", ty: <(u8, Option<Duration>,) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(u8, Option<Duration>,) as Default>::default().to_val()) },
        FieldDef { name: "s", json: "s", ron: "s", ty: <Option<P76<String>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<P76<String>> as Default>::default().to_val()) },
        FieldDef { name: "z", json: "z", ron: "z", ty: <Text as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <Text as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P90 { d: Subject::from_val(&x[0]), out: Subject::from_val(&x[1]), tok: Subject::from_val(&x[2]), kind: Subject::from_val(&x[3]), s: Subject::from_val(&x[4]), z: Subject::from_val(&x[5]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.d.to_val(), self.out.to_val(), self.tok.to_val(), self.kind.to_val(), self.s.to_val(), self.z.to_val()]) }
}
fn dflt_90_0() -> String { <String as Subject>::from_val(&vcore::gen::sample::<String>(838309854)) }

#[derive(nanoserde::DeBin, nanoserde::DeRon, nanoserde::SerJson, nanoserde::SerRon, nanoserde::DeJson, nanoserde::SerBin)]
#[nserde(transparent)]
/** block docs */
pub(in crate) struct P91<T: core::fmt::Debug, A1: SerJsonX + Clone>(#[allow(unused, non_snake_case)]
pub bool, /** block docs */
pub u8, /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
pub Vec<T>, #[allow(dead_code)]
pub Box<A1>,) where T: Clone, A1: Clone,;
impl<T: core::fmt::Debug + Clone + Subject, A1: SerJsonX + Clone + Clone + Subject> Subject for P91<T, A1>  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P91", kind: Kind::Tuple, transparent: true, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) },
        FieldDef { name: "", json: "", ron: "", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "", json: "", ron: "", ty: <Vec<T> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "", json: "", ron: "", ty: <Box<A1> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P91(Subject::from_val(&x[0]), Subject::from_val(&x[1]), Subject::from_val(&x[2]), Subject::from_val(&x[3])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val(), self.1.to_val(), self.2.to_val(), self.3.to_val()]) }
}


#[derive(PartialEq, Hash, SerRon, SerBin, DeBin, PartialOrd, Eq, DeJson, SerJson, DeRon, Ord)]
/** block docs */
#[allow(clippy::all)] pub enum P92  {
    X2 = -3,
    String = (6),
    none,
    Green = 14,
    null = 0 + 15,
}
impl Subject for P92 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P92", variants: &[
        VariantDef { name: "X2", json: "X2", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "String", json: "String", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "none", json: "none", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Green", json: "Green", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "null", json: "null", kind: Kind::Unit, fields: &[] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::X2, 1 => Self::String, 2 => Self::none, 3 => Self::Green, 4 => Self::null, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::X2 => Val::Enum(0, vec![]), Self::String => Val::Enum(1, vec![]), Self::none => Val::Enum(2, vec![]), Self::Green => Val::Enum(3, vec![]), Self::null => Val::Enum(4, vec![]), } }
}


#[derive(SerRon, SerBin)]
#[derive(DeBin, DeRon, SerJson, DeJson)]
#[cfg(all())]
pub struct P93(#[allow(dead_code)]
pub i16, pub P87<Vec<u16>, 0>) ;
impl Subject for P93  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P93", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) },
        FieldDef { name: "", json: "", ron: "", ty: <P87<Vec<u16>, 0> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P93(Subject::from_val(&x[0]), Subject::from_val(&x[1])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val(), self.1.to_val()]) }
}


macro_rules! mk_P94 { ($a0:ty, $a1:literal, $a2:ty, $a3:vis,) => {
#[derive(SerRon, DeBin, DeJson, SerBin, Default, SerJson, DeRon)]
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
#[allow(clippy::all)] $a3 enum P94  {
    #[allow(unused, non_snake_case)]
#[default]
SHOUT,
    Some_ {
#[doc = "attr docs"]
l47: $a0,
/** block docs */
#[nserde(skip, rename = $a1,)]
Option_: f64
},
    #[doc = "attr docs"]
#[nserde(rename = r"\")]
C,
    East($a2)
}
} }
mk_P94!(i64, r#"data"#, f32, pub(crate),);
impl Subject for P94 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P94", variants: &[
        VariantDef { name: "SHOUT", json: "SHOUT", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Some_", json: "Some_", kind: Kind::Named, fields: &[FieldDef { name: "l47", json: "l47", ron: "l47", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }, FieldDef { name: "Option_", json: "data", ron: "data", ty: <f64 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f64 as Default>::default().to_val()) }] },
        VariantDef { name: "C", json: "\\", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "East", json: "East", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::SHOUT, 1 => Self::Some_ { l47: Subject::from_val(&x_[0]), Option_: Subject::from_val(&x_[1]) }, 2 => Self::C, 3 => Self::East(Subject::from_val(&x_[0])), _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::SHOUT => Val::Enum(0, vec![]), Self::Some_ { l47: b0, Option_: b1 } => Val::Enum(1, vec![b0.to_val(), b1.to_val()]), Self::C => Val::Enum(2, vec![]), Self::East(b0) => Val::Enum(3, vec![b0.to_val()]), } }
}


#[derive(DeRon, SerRon, Default)]
#[cfg(all())]
pub struct P95  {
    // plain comment
#[nserde(rename = r"f1")]
#[cfg(all())]
#[nserde(default = true)]
#[doc = "attr docs"]
pub chars: bool
}
impl Subject for P95  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P95", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "chars", json: "f1", ron: "f1", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: bool = true; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P95 { chars: Subject::from_val(&x[0]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.chars.to_val()]) }
}

#[derive(SerRon)]
// plain comment
pub struct P95Lent<'a, F0> where F0: Marker + 'a {
#[nserde(rename = r"f1", default = true)]
#[allow(unused, non_snake_case)]
chars: &'a F0
}
pub struct P95View(P95);
impl Subject for P95View { const TY: TyRef = <P95 as Subject>::TY; fn from_val(v: &Val) -> Self { P95View(Subject::from_val(v)) } fn to_val(&self) -> Val { self.0.to_val() } }
impl SerRon for P95View { fn ser_ron(&self, d: usize, s: &mut nanoserde::SerRonState) { match &self.0 { P95 { chars: x0 } => P95Lent { chars: x0 }.ser_ron(d, s), } } }
impl DeRon for P95View { fn de_ron(s: &mut nanoserde::DeRonState, i: &mut core::str::Chars) -> Result<Self, nanoserde::DeRonErr> { Ok(P95View(DeRon::de_ron(s, i)?)) } }

#[derive(SerRon, DeJson)]
#[derive(DeBin, DeRon, SerJson, SerBin)]
// plain comment
pub struct P96<U: Marker + Known<Ty = u8>, const N: usize = 2>(pub(super) Duration, pub [u8; N], // plain comment
pub(crate) ([U; N], Vec<Duration>), #[allow(unused, non_snake_case)]
pub Duration, #[allow(unused, non_snake_case)]
pub ::std::option::Option<(String, i8,)>) where U: SerBinary + Clone,;
impl<U: Marker + Known<Ty = u8> + SerBinary + Clone + Subject, const N: usize> Subject for P96<U, N>  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P96", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <Duration as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Duration as Default>::default().to_val()) },
        FieldDef { name: "", json: "", ron: "", ty: <[u8; N] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "", json: "", ron: "", ty: <([U; N], Vec<Duration>) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "", json: "", ron: "", ty: <Duration as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Duration as Default>::default().to_val()) },
        FieldDef { name: "", json: "", ron: "", ty: <::std::option::Option<(String, i8,)> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <::std::option::Option<(String, i8,)> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P96(Subject::from_val(&x[0]), Subject::from_val(&x[1]), Subject::from_val(&x[2]), Subject::from_val(&x[3]), Subject::from_val(&x[4])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val(), self.1.to_val(), self.2.to_val(), self.3.to_val(), self.4.to_val()]) }
}


#[derive(SerBin, DeRon, DeBin, SerRon)]
pub(in crate) struct P97  {
    /** block docs */
pub(super) r#impl: f32,
    pub c27: Box<P91<u8, (u8, String)>>,
}
impl Subject for P97  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P97", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "r#impl", json: "impl", ron: "impl", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) },
        FieldDef { name: "c27", json: "c27", ron: "c27", ty: <Box<P91<u8, (u8, String)>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P97 { r#impl: Subject::from_val(&x[0]), c27: Subject::from_val(&x[1]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.r#impl.to_val(), self.c27.to_val()]) }
}

#[derive(SerBin, SerRon)]
pub struct P97Lent<'a>  {
r#impl: &'a f32,
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
c27: &'a Box<P91<u8, (u8, String)>>
}
pub struct P97View(P97);
impl Subject for P97View { const TY: TyRef = <P97 as Subject>::TY; fn from_val(v: &Val) -> Self { P97View(Subject::from_val(v)) } fn to_val(&self) -> Val { self.0.to_val() } }
impl SerBin for P97View { fn ser_bin(&self, s: &mut Vec<u8>) { match &self.0 { P97 { r#impl: x0, c27: x1 } => P97Lent { r#impl: x0, c27: x1 }.ser_bin(s), } } }
impl DeBin for P97View { fn de_bin(o: &mut usize, d: &[u8]) -> Result<Self, nanoserde::DeBinErr> { Ok(P97View(DeBin::de_bin(o, d)?)) } }
impl SerRon for P97View { fn ser_ron(&self, d: usize, s: &mut nanoserde::SerRonState) { match &self.0 { P97 { r#impl: x0, c27: x1 } => P97Lent { r#impl: x0, c27: x1 }.ser_ron(d, s), } } }
impl DeRon for P97View { fn de_ron(s: &mut nanoserde::DeRonState, i: &mut core::str::Chars) -> Result<Self, nanoserde::DeRonErr> { Ok(P97View(DeRon::de_ron(s, i)?)) } }

#[derive(Default, SerBin, Hash, DeBin, Eq, Ord, PartialEq, PartialOrd)]
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
pub struct P98(pub(super) Box<bool>,) ;
impl Subject for P98  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P98", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <Box<bool> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Box<bool> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P98(Subject::from_val(&x[0])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val()]) }
}


#[derive(nanoserde::DeBin, nanoserde::SerBin)]
 pub struct P99Px { via: P98, flag: bool }
impl Subject for P99Px  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P99Px", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "via", json: "via", ron: "via", ty: <P98 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <P98 as Default>::default().to_val()) },
        FieldDef { name: "flag", json: "flag", ron: "flag", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P99Px { via: Subject::from_val(&x[0]), flag: Subject::from_val(&x[1]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.via.to_val(), self.flag.to_val()]) }
}
#[derive(nanoserde::DeBin, nanoserde::SerBin)]
 #[nserde(proxy = "P99Px")]
pub struct P99 (Val);
impl Subject for P99 { const TY: TyRef = <P99Px as Subject>::TY; fn from_val(v: &Val) -> Self { let v = v.clone(); P99(v) } fn to_val(&self) -> Val { self.0.clone() } }
impl From<&P99> for P99Px { fn from(x: &P99) -> Self { Subject::from_val(&x.0) } }
impl From<&P99Px> for P99 { fn from(x: &P99Px) -> Self { let v = x.to_val(); P99(v) } }

#[derive(SerJson, Default, PartialOrd, Hash, SerBin, Eq, DeBin, SerRon, Ord, DeRon, DeJson, PartialEq)]
#[allow(unused, non_snake_case)]
#[allow(clippy::all)] pub enum P100  {
    #[default]
None_,
    West(String, u8,),
    Some_,
    #[allow(dead_code)]
E(),
    camelCase
}
impl Subject for P100 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P100", variants: &[
        VariantDef { name: "None_", json: "None_", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "West", json: "West", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }] },
        VariantDef { name: "Some_", json: "Some_", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "E", json: "E", kind: Kind::Tuple, fields: &[] },
        VariantDef { name: "camelCase", json: "camelCase", kind: Kind::Unit, fields: &[] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::None_, 1 => Self::West(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), 2 => Self::Some_, 3 => Self::E(), 4 => Self::camelCase, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::None_ => Val::Enum(0, vec![]), Self::West(b0, b1) => Val::Enum(1, vec![b0.to_val(), b1.to_val()]), Self::Some_ => Val::Enum(2, vec![]), Self::E() => Val::Enum(3, vec![]), Self::camelCase => Val::Enum(4, vec![]), } }
}


macro_rules! mk_P101 { ($a0:ty, $a1:meta, $a2:ty, $a3:ty, $a4:vis,) => {
#[derive(DeBin, SerRon, SerBin, SerJson, DeJson, DeRon)]
#[allow(clippy::all)] $a4 enum P101  {
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
False($a0),
    /** block docs */
E1 {
#[allow(dead_code)]
j11: Vec<BTreeMap<String, f64>>,
// plain comment
#[$a1]
/** block docs */
skip: $a2,
},
    #[allow(unused, non_snake_case)]
Ok_,
    // plain comment
G {
b52: $a3,
},
    #[nserde(rename = "'",)]
// plain comment
East,
}
} }
mk_P101!(Box<i64>, nserde(default_with = "dflt_101_0"), u32, Vec<P93>, pub,);
impl Subject for P101 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P101", variants: &[
        VariantDef { name: "False", json: "False", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <Box<i64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Box<i64> as Default>::default().to_val()) }] },
        VariantDef { name: "E1", json: "E1", kind: Kind::Named, fields: &[FieldDef { name: "j11", json: "j11", ron: "j11", ty: <Vec<BTreeMap<String, f64>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<BTreeMap<String, f64>> as Default>::default().to_val()) }, FieldDef { name: "skip", json: "skip", ron: "skip", ty: <u32 as Subject>::ty, skip: false, dflt: Dflt::Value(|| dflt_101_0().to_val()), is_opt: false, null_none: false, type_default: Some(|| <u32 as Default>::default().to_val()) }] },
        VariantDef { name: "Ok_", json: "Ok_", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "G", json: "G", kind: Kind::Named, fields: &[FieldDef { name: "b52", json: "b52", ron: "b52", ty: <Vec<P93> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<P93> as Default>::default().to_val()) }] },
        VariantDef { name: "East", json: "'", kind: Kind::Unit, fields: &[] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::False(Subject::from_val(&x_[0])), 1 => Self::E1 { j11: Subject::from_val(&x_[0]), skip: Subject::from_val(&x_[1]) }, 2 => Self::Ok_, 3 => Self::G { b52: Subject::from_val(&x_[0]) }, 4 => Self::East, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::False(b0) => Val::Enum(0, vec![b0.to_val()]), Self::E1 { j11: b0, skip: b1 } => Val::Enum(1, vec![b0.to_val(), b1.to_val()]), Self::Ok_ => Val::Enum(2, vec![]), Self::G { b52: b0 } => Val::Enum(3, vec![b0.to_val()]), Self::East => Val::Enum(4, vec![]), } }
}
fn dflt_101_0() -> u32 { <u32 as Subject>::from_val(&vcore::gen::sample::<u32>(705956312)) }

#[derive(SerRon, DeBin, SerJson, SerBin, DeJson, DeRon)]
#[allow(clippy::all)] pub enum P102Big  {
    V411,
    #[allow(unused, non_snake_case)]
V155 {
#[nserde(rename = "w")]
r70: i8,
#[allow(unused, non_snake_case)]
s: Vec<Vec<u16>>
},
    V513,
    #[allow(dead_code)]
V211,
    // plain comment
V52,
    V454,
    #[nserde(rename = r"[")]
#[allow(unused, non_snake_case)]
V439(),
    V177 {
#[cfg(all())]
long_field_name_that_goes_on_and_on_and_on_and_does_not_stop_here: (Alias<i16>, Option<Duration>)
},
    // plain comment
V437(i8, P96<String, 1>,),
    V40,
    #[cfg(all())]
V273,
    #[nserde(rename = "TRUE",)]
/** block docs */
V383,
    V370,
    V493,
    V358,
    #[allow(unused, non_snake_case)]
V137,
    #[cfg(all())]
V448(/** block docs */
std::collections::BTreeSet<i8>, Box<f64>),
    #[allow(unused, non_snake_case)]
V506(core::option::Option<BTreeSet<u32>>, [core::option::Option<u8>; 3usize]),
    V91,
    #[nserde(rename = r" ")]
/** block docs */
V469 {
#[cfg(all())]
cur: (Box<u32>, u8, u16, P93,)
},
    V330,
    #[allow(dead_code)]
V463,
    V319 {
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
#[nserde(default,)]
None: std::collections::HashMap<Vec<bool>, Option<f64>>,
},
    #[doc = "attr docs"]
V13(),
    #[allow(unused, non_snake_case)]
V385,
    #[allow(dead_code)]
V408(f32, /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
LinkedList<P91<u8, (u8, String)>>, // plain comment
i8),
    V505,
    #[allow(unused, non_snake_case)]
V50,
    #[cfg(all())]
V150,
    #[allow(dead_code)]
V129,
    V39,
    V115,
    V121,
    #[nserde(rename = "none")]
V315,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
V236,
    #[allow(dead_code)]
V94,
    #[nserde(rename = r#"Self_"#)]
V434,
    /** block docs */
V165,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
V415(P87<String, 1>),
    #[nserde(rename = r" a")]
V447(),
    V159(i64, HashMap<P92, ::std::option::Option<String>>,),
    V298,
    #[allow(unused, non_snake_case)]
V397,
    #[allow(dead_code)]
#[nserde(rename = "Vec",)]
V147,
    // plain comment
V275,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
V9,
    V134,
    #[doc = "attr docs"]
V60,
    #[cfg(all())]
#[nserde(rename = r#"F"#)]
V78,
    #[allow(dead_code)]
V111,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
V303,
    #[doc = "attr docs"]
V140,
    #[allow(unused, non_snake_case)]
V293,
    // plain comment
V214,
    #[cfg(all())]
V342,
    V453(BTreeSet<u64>, bool),
    #[allow(dead_code)]
V148(f64),
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
V301,
    V509,
    V34([f32; 4], i16,),
    /** block docs */
#[nserde(rename = "Struct",)]
#[allow(dead_code)]
V257,
    #[allow(unused, non_snake_case)]
V33,
    #[nserde(rename = r#"First"#)]
/** block docs */
V109,
    #[allow(dead_code)]
V14 {
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
#[nserde(serialize_none_as_null)]
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
s: ::std::option::Option<i32>
},
    // plain comment
V223,
    V242,
    V438,
    #[nserde(rename = "\t")]
V427,
    #[cfg(all())]
V455,
    V89,
    V218,
    #[allow(unused, non_snake_case)]
V82 {

},
    #[allow(unused, non_snake_case)]
V117,
    #[allow(unused, non_snake_case)]
V131(std::collections::BTreeSet<bool>),
    V329,
    /** block docs */
V458,
    V475,
    /** block docs */
V207,
    V79 {
first: Option<<Alias<Vec<u8>> as self::Assoc>::Ty>,
#[doc = "attr docs"]
o: usize
},
    #[cfg(all())]
V138,
    #[nserde(rename = ".")]
V419,
    #[doc = "attr docs"]
V83,
    #[cfg(all())]
V19,
    V28,
    #[allow(unused, non_snake_case)]
V363,
    V406,
    V403,
    #[doc = "attr docs"]
V504 {

},
    #[allow(unused, non_snake_case)]
V64 {
i26: P96<String, 1>,
/** block docs */
out: u16,
// plain comment
long_field_name_that_goes_on_and_on_and_on_and_does_not_stop_here: i32
},
    #[allow(unused, non_snake_case)]
V425,
    #[allow(unused, non_snake_case)]
V278,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
V352,
    // plain comment
V345,
    V108,
    #[cfg(all())]
V15,
    V361,
    #[doc = "attr docs"]
#[nserde(rename = r"null")]
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
V391,
    /** block docs */
V70(Option<[f32; 0]>),
    // plain comment
V321 {

},
    V62,
    /** block docs */
#[nserde(rename = r#"SHOUT"#)]
V316([i8; 0x3], Vec<[i8; 3usize]>, Text, P101, u8),
    /** block docs */
V198 {

},
    V122,
    V295,
    V335,
    // plain comment
V400,
    #[doc = "attr docs"]
#[nserde(rename = "}")]
// plain comment
V489,
    #[doc = "attr docs"]
V154,
    V243(u16, (P90, LinkedList<i64>)),
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
V76,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
V205,
    V228,
    V468(// plain comment
usize,),
    // plain comment
V271,
    #[allow(dead_code)]
V204,
    #[allow(dead_code)]
V344,
    #[allow(unused, non_snake_case)]
V362,
    V187,
    #[cfg(all())]
V36,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
#[nserde(rename = "E")]
#[cfg(all())]
V327,
    /** block docs */
#[nserde(rename = r#"a-b"#)]
/** block docs */
V225,
    #[cfg(all())]
V488,
    V127,
    V451,
    #[doc = "attr docs"]
V462,
    #[allow(dead_code)]
#[nserde(rename = r#"e"#)]
#[cfg(all())]
V231,
    #[doc = "attr docs"]
V73,
    V69,
    V421,
    /** block docs */
V331,
    /** block docs */
V328,
    V106,
    #[cfg(all())]
V27,
    /** block docs */
V250,
    V313,
    #[allow(dead_code)]
V246 {
_0x: i8,
#[cfg(all())]
first_field_was_serialized: std::option::Option<String>,
k9: u8
},
    #[nserde(rename = "a b")]
#[allow(dead_code)]
V389 {
u8_: (u64, P91<u8, (u8, String)>, BTreeMap<String, String>),
deserialize_ron: [std::collections::HashMap<String, u32>; 0x3],
#[cfg(all())]
o13: (Vec<usize>, u8,),
},
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
V471(BTreeMap<String, Vec<f32>>),
    V179,
    #[doc = "attr docs"]
V164,
    #[cfg(all())]
V516,
    #[nserde(rename = "fn")]
V193,
    V57,
    V123,
    #[cfg(all())]
V420,
    V487 {
rename_: [Duration; LEN],
#[cfg(all())]
#[nserde(default)]
#[allow(unused, non_snake_case)]
unknown: P100,
/** block docs */
y: Vec<i8>
},
    #[nserde(rename = " ")]
#[allow(dead_code)]
V183,
    // plain comment
V172 {

},
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
V356,
    V222,
    V386,
    // plain comment
V55,
    #[cfg(all())]
V433,
    V189,
    V169,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
V272,
    V372,
    V518,
    V258,
    #[doc = "attr docs"]
#[nserde(rename = r#"Tuple"#)]
#[cfg(all())]
V341,
    // plain comment
V376 {
// plain comment
std_: Option<Duration>
},
    #[nserde(rename = r"}}")]
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
V216,
    V54(Duration),
    #[doc = "attr docs"]
V202,
    V230 {
y25: String,
_s: std::collections::BTreeSet<u8>,
buf: P91<u8, i32>,
/** block docs */
__y: ::std::option::Option<Duration>,
},
    #[allow(dead_code)]
V393,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
V515,
    #[cfg(all())]
V180(P96<String, 1>, #[allow(unused, non_snake_case)]
[Option<u16>; 40], HashMap<Vec<u32>, P87<String, 1>>, Vec<u64>, Kn<{ 9 >> 1 }>),
    #[cfg(all())]
V477,
    /** block docs */
V29(#[allow(unused, non_snake_case)]
f32),
    #[cfg(all())]
V101,
    #[allow(dead_code)]
V484,
    #[allow(unused, non_snake_case)]
V483,
    V398,
    V220 {
#[cfg(all())]
#[nserde(serialize_none_as_null)]
e38: Option<Vec<u32>>,
d: u8,
f95: Option<BTreeMap<String, i64>>,
camelCase: f64,
},
    V269(Option<f64>, #[cfg(all())]
f64, (P91<u8, (u8, String)>, P101), i64, ::std::option::Option<BTreeMap<bool, i64>>),
    V404,
    /** block docs */
V464 {
/** block docs */
r24: Vec<P91<u8, i32>>,
#[nserde(default)]
k38: String,
out: i16
},
    #[cfg(all())]
V441,
    // plain comment
V317,
    V97([BTreeSet<String>; 0], f32),
    V233 {
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
#[nserde(default)]
#[cfg(all())]
data: usize,
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
col: [u32; { LEN + 1 }]
},
    V47,
    V46,
    V37(Option<usize>),
    #[nserde(rename = "Bar")]
V5 {
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
numbuf: BTreeSet<(u64, bool)>
},
    V318,
    /** block docs */
#[nserde(rename = r"x　",)]
#[allow(unused, non_snake_case)]
V166,
    // plain comment
V203,
    // plain comment
V277 {
#[doc = "attr docs"]
#[nserde(skip)]
/** block docs */
#[nserde(rename = r"out")]
#[doc = "attr docs"]
#[allow(dead_code)]
skip: u16
},
    V414,
    V17,
    #[allow(unused, non_snake_case)]
V254,
    // plain comment
V100(i32),
    #[cfg(all())]
V481,
    V519 {

},
    V283,
    V145,
    #[nserde(rename = "East")]
#[allow(dead_code)]
V116 {
#[nserde(default_with = "dflt_102_0")]
b62: std::collections::HashMap<i8, [f64; 2]>,
#[allow(dead_code)]
#[nserde(rename = "f0")]
#[doc = "attr docs"]
e1: i16,
},
    // plain comment
V436 {
// plain comment
a59: P93
},
    #[allow(unused, non_snake_case)]
V266 {
#[nserde(serialize_none_as_null)]
#[cfg(all())]
#[nserde(rename = r#"b"#)]
#[doc = "attr docs"]
// plain comment
some_: std::option::Option<::std::string::String>,
#[doc = "attr docs"]
d: Vec<String>,
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
y: P91<u8, (u8, String)>,
},
    V478,
    /** block docs */
V26,
    V431,
    #[allow(unused, non_snake_case)]
V146,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
V161 {
#[allow(unused, non_snake_case)]
f1: Box<[Duration; 1]>,
r#box: P87<String, 1>,
},
    V232(Vec<Box<i32>>, inner::deeper::Word, std::option::Option<Vec<u16>>, #[doc = "attr docs"]
(u16, std::collections::HashMap<u16, Duration>), [Option<u8>; { LEN + 1 }]),
    V126,
    V153,
    #[allow(unused, non_snake_case)]
V118,
    // plain comment
#[nserde(rename = "\u{7f}")]
#[allow(dead_code)]
V201,
    #[doc = "attr docs"]
#[nserde(rename = "$ref")]
#[doc = "attr docs"]
V413,
    V197(Duration, SystemTime, u8,),
    V485,
    V112,
    #[allow(unused, non_snake_case)]
#[nserde(rename = "X3",)]
#[doc = "attr docs"]
V167,
    #[allow(dead_code)]
#[nserde(rename = r#"/*"#)]
#[cfg(all())]
V252,
    #[doc = "attr docs"]
V308,
    V48,
    #[cfg(all())]
V432,
    // plain comment
#[nserde(rename = r"a.b",)]
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
V217,
    // plain comment
V208,
    V206,
    V355(Option<i16>),
    V476,
    #[cfg(all())]
V178,
    #[allow(dead_code)]
V473 {

},
    // plain comment
#[nserde(rename = r#"{}"#,)]
#[allow(dead_code)]
V22,
    V139,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
V21,
    V394,
    // plain comment
#[nserde(rename = r"\n")]
V248(P91<u8, i32>),
    V346,
    V357,
    #[doc = "attr docs"]
V4([String; 4], Vec<P94>, std::collections::BTreeSet<(i64, u8)>,),
    V409,
    V149,
    #[allow(dead_code)]
#[nserde(rename = "None",)]
#[allow(unused, non_snake_case)]
V511,
    // plain comment
V490,
    V30,
    #[nserde(rename = "​")]
V299,
    #[allow(dead_code)]
V422,
    V285,
    #[allow(unused, non_snake_case)]
V289,
    #[cfg(all())]
V107,
    // plain comment
V311,
    V497,
    V32 {
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
#[nserde(default_with = "self::dflt_102_1")]
/** block docs */
Some: u16,
None: (core::option::Option<u32>, std::option::Option<i8>, i16, Option<u8>)
},
    #[allow(dead_code)]
V45,
    #[allow(dead_code)]
#[nserde(rename = r#"//"#)]
V209,
    V80,
    /** block docs */
V503,
    V348,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
V174,
    #[allow(unused, non_snake_case)]
#[nserde(rename = r"é",)]
// plain comment
V263,
    /** block docs */
V494,
    // plain comment
V235,
    /** block docs */
V322 {
std_: std::collections::BTreeSet<Vec<usize>>,
#[nserde(serialize_none_as_null)]
#[doc = "attr docs"]
c28: Option<Vec<Duration>>,
#[doc = "attr docs"]
#[nserde(default_with = "self::dflt_102_2")]
g77: Kb<{ 1 > 2 }>
},
    V212(P90, #[cfg(all())]
P100,),
    #[cfg(all())]
#[nserde(rename = r#"A"#)]
V444,
    /** block docs */
V105,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
V104,
    #[allow(unused, non_snake_case)]
V320 {
#[doc = "attr docs"]
error: P96<String, 1>,
int64: f64,
#[nserde(default_with = "dflt_102_3")]
last: std::collections::BTreeSet<Vec<i8>>,
},
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
V401,
    #[cfg(all())]
V349,
    /** block docs */
V262,
    // plain comment
V264,
    #[allow(unused, non_snake_case)]
V304,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
V181,
    #[nserde(rename = "X2")]
V424,
    #[allow(dead_code)]
V449,
    #[allow(dead_code)]
#[nserde(rename = r"some")]
V353,
    #[allow(dead_code)]
#[nserde(rename = "NULL")]
#[doc = "attr docs"]
V265,
    #[doc = "attr docs"]
V38,
    /** block docs */
V162,
    #[allow(dead_code)]
V186,
    V244(BTreeMap<i64, OptAlias>, std::option::Option<[u32; 3usize]>),
    V405,
    #[cfg(all())]
V41(std::collections::HashMap<(i8, i32), std::collections::BTreeSet<u16>>, P92),
    V377,
    #[allow(unused, non_snake_case)]
V446,
    V190,
    // plain comment
V84(#[doc = "attr docs"]
P96<(u8, String), 3>),
    V324 {
#[allow(unused, non_snake_case)]
none_: P93,
#[nserde(skip)]
// plain comment
alloc_: Vec<P100>,
},
    #[cfg(all())]
V42,
    // plain comment
V312,
    V314(u64, Option<u64>, #[allow(dead_code)]
LinkedList<std::option::Option<usize>>),
    V461,
    #[allow(unused, non_snake_case)]
V163,
    V141,
    V157,
    V175,
    V114,
    V267,
    #[doc = "attr docs"]
V508,
    #[allow(unused, non_snake_case)]
V192,
    #[cfg(all())]
V256,
    V270,
    #[allow(unused, non_snake_case)]
#[nserde(rename = r"Ok")]
V142(u32, u16),
    /** block docs */
V337,
    #[cfg(all())]
V282,
    #[allow(unused, non_snake_case)]
V152,
    V247,
    #[cfg(all())]
V160(P91<u8, i32>, P91<u8, (u8, String)>),
    V291,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
V495,
    /** block docs */
V20,
    V302(std::option::Option<(i8, i32,)>, P101, P87<String, 1>, (usize, Duration, u8, P101,), [std::collections::BTreeSet<u32>; 2 * LEN]),
    V443,
    #[doc = "attr docs"]
V450,
    #[allow(unused, non_snake_case)]
#[nserde(rename = "\\",)]
V221,
    #[cfg(all())]
#[nserde(rename = r#"true"#)]
V229,
    V124,
    V280(LinkedList<std::vec::Vec<u32>>, #[allow(dead_code)]
OptAlias,),
    V517,
    V95,
    #[cfg(all())]
V480,
    #[allow(unused, non_snake_case)]
V326,
    V171,
    V407,
    V399,
    #[cfg(all())]
#[nserde(rename = r#"""#)]
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
V410(::std::option::Option<P87<Vec<u16>, 0>>),
    // plain comment
#[nserde(rename = r#"Some"#,)]
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
V367,
    V3(Vec<core::option::Option<i32>>, u16,),
    #[cfg(all())]
V253,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
V245,
    // plain comment
V238,
    V191,
    /** block docs */
V510,
    V381 {
/** block docs */
line: [(usize, usize,); LEN]
},
    V336,
    #[cfg(all())]
V310,
    // plain comment
V430,
    // plain comment
V501,
    V182,
    V472,
    /** block docs */
V459,
    #[nserde(rename = "a\t")]
// plain comment
V130 {
#[cfg(all())]
#[nserde(rename = "std_")]
#[doc = "attr docs"]
r#move: std::collections::BTreeSet<usize>,
#[nserde(rename = "first_field_was_serialized")]
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
x53: P87<String, 1>,
},
    V498,
    #[allow(unused, non_snake_case)]
V75(usize, usize, P91<u8, (u8, String)>),
    /** block docs */
#[nserde(rename = "type",)]
V16,
    #[allow(unused, non_snake_case)]
V251,
    #[allow(dead_code)]
V239,
    #[nserde(rename = r"Default",)]
V261,
    #[allow(unused, non_snake_case)]
V2,
    V72,
    V388,
    V292,
    #[nserde(rename = r#" x "#)]
#[allow(dead_code)]
V215,
    /** block docs */
#[nserde(rename = "Some_")]
#[doc = "attr docs"]
V457,
    #[allow(unused, non_snake_case)]
V119,
    V435,
    #[nserde(rename = "skip")]
#[doc = "attr docs"]
V0 {
#[allow(unused, non_snake_case)]
u5: Kn<-1>,
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
first_field_was_serialized: Vec<bool>,
u75: i32,
#[nserde(rename = r"crate",)]
name: std::option::Option<Vec<Duration>>
},
    #[nserde(rename = ",")]
#[cfg(all())]
V110,
    #[doc = "attr docs"]
V85,
    V375,
    #[allow(unused, non_snake_case)]
V56,
    #[nserde(rename = r"None0")]
#[doc = "attr docs"]
V158,
    V360,
    // plain comment
V338,
    // plain comment
#[nserde(rename = "\nx")]
#[cfg(all())]
V339,
    #[allow(dead_code)]
V24,
    // plain comment
V396,
    V325,
    #[allow(unused, non_snake_case)]
V61,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
V365,
    #[allow(unused, non_snake_case)]
V378,
    #[allow(dead_code)]
V412(i8),
    V402(u32,),
    /** block docs */
V288,
    // plain comment
V11 {
/** block docs */
last: ::std::string::String
},
    #[doc = "attr docs"]
#[nserde(rename = "String")]
#[doc = "attr docs"]
V23,
    V90 {
name: P96<(u8, String), 3>
},
    #[cfg(all())]
V368 {
i23: Duration
},
    /** block docs */
V416,
    /** block docs */
V305,
    V306(String, usize),
    #[allow(dead_code)]
#[nserde(rename = "NaN")]
#[allow(unused, non_snake_case)]
V276(i16),
    // plain comment
V88,
    #[allow(dead_code)]
V281,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
V334,
    /** block docs */
V213,
    V10,
    V347,
    #[doc = "attr docs"]
V323,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
V156,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
V53,
    V284(P100, #[allow(dead_code)]
[Option<i16>; 0x3]),
    V350(Duration, ([String; 3usize], ::std::option::Option<u32>,)),
    #[nserde(rename = r#"a."#,)]
V12,
    V300,
    V426,
    // plain comment
V96 {
cur: LinkedList<(usize, u64, f32,)>,
#[allow(unused, non_snake_case)]
r1: u32,
},
    V58,
    V224,
    V354,
    #[cfg(all())]
V184,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
V460,
    V268(Vec<P94>, #[doc = "attr docs"]
std::vec::Vec<i32>,),
    V98,
    #[nserde(rename = r"a ")]
V6 {
// plain comment
#[nserde(rename = "state")]
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
y: usize,
},
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
V333,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
V392,
    V417,
    // plain comment
V418,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
V226(// plain comment
[P93; 2 * LEN]),
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
V296,
    V51,
    V364,
    V351(LinkedList<LinkedList<u16>>),
    /** block docs */
V445,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
V379(),
    V373,
    // plain comment
V294(Box<std::option::Option<u64>>, // plain comment
u8, [P90; 2], /** block docs */
(SystemTime, Box<i16>, P96<(u8, String), 3>,), i64),
    // plain comment
V77,
    #[cfg(all())]
#[nserde(rename = r#"inf"#)]
#[cfg(all())]
V151,
    // plain comment
V502,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
#[nserde(rename = r"1")]
V507,
    #[allow(unused, non_snake_case)]
V43,
    #[doc = "attr docs"]
#[nserde(rename = "VeryLongVariantNameThatGoesOnAndOn")]
V68,
    // plain comment
V309 {
#[cfg(all())]
b75: P94,
#[allow(unused, non_snake_case)]
rename_: f64
},
    V382,
    V44,
    #[nserde(rename = r":")]
#[doc = "attr docs"]
V194,
    #[nserde(rename = "Option")]
V74,
    #[nserde(rename = r"C")]
#[doc = "attr docs"]
V199,
    #[nserde(rename = r"a=1",)]
V8,
    V492,
    #[allow(dead_code)]
V237,
    #[doc = "attr docs"]
#[nserde(rename = "Foo")]
#[allow(unused, non_snake_case)]
V241 {
// plain comment
Option_: Duration,
#[nserde(default = "-0.25",)]
#[allow(dead_code)]
h18: f64,
m32: P94,
/** block docs */
k83: Duration,
},
    #[allow(unused, non_snake_case)]
V173,
    #[allow(unused, non_snake_case)]
V66,
    #[allow(unused, non_snake_case)]
V440,
    V387,
    V479,
    V25,
    V259(BTreeSet<String>),
    #[nserde(rename = r"nan",)]
#[allow(dead_code)]
V286,
    V67,
    #[nserde(rename = "x ")]
V482,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
V71,
    V63,
    V1,
    #[nserde(rename = "x\n")]
V366,
    #[nserde(rename = "South")]
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
V514 {

},
    V170,
    V81,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
V442,
    V466,
    V113,
    #[nserde(rename = "D")]
#[doc = "attr docs"]
V65,
    V369,
    #[allow(dead_code)]
V279,
    V128,
    V185,
    /** block docs */
#[nserde(rename = "Green")]
#[allow(unused, non_snake_case)]
V470 {
c: u16,
// plain comment
y90: P87<String, 1>,
#[allow(dead_code)]
unknown: [P101; 3],
/** block docs */
default: (Duration, P91<u8, i32>,),
},
    V452 {
#[doc = "attr docs"]
r1: (HashMap<String, f32>, P87<Vec<u16>, 0>,),
nul: Vec<P96<String, 1>>
},
    #[doc = "attr docs"]
V87,
    #[cfg(all())]
V465,
    #[nserde(rename = r#"'"#,)]
V428,
    #[nserde(rename = "😀",)]
V395,
    V423 {
// plain comment
#[nserde(rename = "x")]
#[cfg(all())]
x56: SystemTime,
},
    V196(i16),
    #[allow(dead_code)]
V168,
    #[cfg(all())]
V103,
    V474,
    #[doc = "attr docs"]
V380 {
/** block docs */
r92: Duration,
#[allow(unused, non_snake_case)]
l25: P96<(u8, String), 3>,
#[nserde(rename = "a_")]
#[allow(dead_code)]
a__b: SystemTime
},
    #[allow(unused, non_snake_case)]
V456,
    V240,
    V144,
    #[cfg(all())]
#[nserde(rename = r"ключ")]
/** block docs */
V227,
    #[cfg(all())]
V491,
    // plain comment
V287(BTreeSet<(String, usize)>, #[allow(unused, non_snake_case)]
Vec<::std::option::Option<f32>>,),
    #[nserde(rename = r#"a::b"#,)]
#[doc = "attr docs"]
V35,
    V486,
    #[doc = "attr docs"]
V332 {
#[nserde(rename = "f1")]
f56: (P91<u8, (u8, String)>, LinkedList<u32>, Duration, (i64, Kn<{ 9 >> 1 }>, i16,))
},
    #[doc = "attr docs"]
V384,
    #[doc = "attr docs"]
V290,
    #[nserde(rename = r#"NONE"#)]
#[doc = "attr docs"]
V86,
    #[allow(dead_code)]
V195,
    V500(Vec<SystemTime>),
    V219,
    #[doc = "attr docs"]
V102 {
#[nserde(rename = r#"nul"#,)]
// plain comment
rename_: P90,
#[nserde(rename = "Some")]
strbuf: std::vec::Vec<u32>,
},
    #[allow(dead_code)]
V135,
    V307 {
/** block docs */
f: LinkedList<u64>,
},
    /** block docs */
V274,
    #[allow(unused, non_snake_case)]
#[nserde(rename = "default")]
#[cfg(all())]
V188,
    #[allow(dead_code)]
#[nserde(rename = "lower")]
#[cfg(all())]
V496,
    #[cfg(all())]
#[nserde(rename = r"B")]
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
V176,
    #[cfg(all())]
V467,
    // plain comment
V31(std::collections::HashMap<Box<u64>, f32>, #[allow(unused, non_snake_case)]
(Kb<{ 'a' == '}' }>, u64)),
    V429 {
#[nserde(default,)]
#[allow(unused, non_snake_case)]
p37: std::collections::BTreeSet<Vec<usize>>,
// plain comment
inf: std::vec::Vec<Option<usize>>
},
    #[cfg(all())]
V49,
    V499 {
#[allow(dead_code)]
c77: P96<String, 1>,
#[nserde(rename = "NONE",)]
m63: P101,
// plain comment
id: Vec<LinkedList<Kn<7>>>,
#[nserde(skip)]
#[allow(dead_code)]
b78: BTreeMap<P100, (i32, u8,)>
},
    #[cfg(all())]
V210,
    /** block docs */
V343,
    V512,
    #[allow(dead_code)]
V59,
    #[allow(dead_code)]
V255 {
#[allow(dead_code)]
e80: bool,
first_field_was_serialized: f64,
/** block docs */
#[nserde(default = "//",)]
#[cfg(all())]
NULL: String,
},
    // plain comment
V143,
    #[allow(unused, non_snake_case)]
V371(HashSet<P92>, ::std::option::Option<u64>),
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
V390 {
#[nserde(rename = r"snake_case_name",)]
c43: P90,
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
d90: (),
g94: std::string::String,
j26: P96<String, 1>,
},
    #[allow(dead_code)]
V133,
    // plain comment
V7,
    V18,
    #[allow(dead_code)]
#[nserde(rename = "None_",)]
V297,
    #[allow(unused, non_snake_case)]
V200,
    #[nserde(rename = "A ")]
V260,
    #[allow(unused, non_snake_case)]
V125,
    #[allow(dead_code)]
V136,
    V120 {

},
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
V359,
    #[allow(dead_code)]
#[nserde(rename = r"  ")]
V249,
    #[cfg(all())]
V132,
    V340(),
    #[cfg(all())]
V92,
    #[doc = "attr docs"]
V234,
    #[allow(unused, non_snake_case)]
V374,
    V93,
    V99
}
impl Subject for P102Big {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P102Big", variants: &[
        VariantDef { name: "V411", json: "V411", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V155", json: "V155", kind: Kind::Named, fields: &[FieldDef { name: "r70", json: "w", ron: "w", ty: <i8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i8 as Default>::default().to_val()) }, FieldDef { name: "s", json: "s", ron: "s", ty: <Vec<Vec<u16>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<Vec<u16>> as Default>::default().to_val()) }] },
        VariantDef { name: "V513", json: "V513", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V211", json: "V211", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V52", json: "V52", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V454", json: "V454", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V439", json: "[", kind: Kind::Tuple, fields: &[] },
        VariantDef { name: "V177", json: "V177", kind: Kind::Named, fields: &[FieldDef { name: "long_field_name_that_goes_on_and_on_and_on_and_does_not_stop_here", json: "long_field_name_that_goes_on_and_on_and_on_and_does_not_stop_here", ron: "long_field_name_that_goes_on_and_on_and_on_and_does_not_stop_here", ty: <(Alias<i16>, Option<Duration>) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(Alias<i16>, Option<Duration>) as Default>::default().to_val()) }] },
        VariantDef { name: "V437", json: "V437", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <i8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i8 as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <P96<String, 1> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] },
        VariantDef { name: "V40", json: "V40", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V273", json: "V273", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V383", json: "TRUE", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V370", json: "V370", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V493", json: "V493", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V358", json: "V358", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V137", json: "V137", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V448", json: "V448", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <std::collections::BTreeSet<i8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::collections::BTreeSet<i8> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <Box<f64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Box<f64> as Default>::default().to_val()) }] },
        VariantDef { name: "V506", json: "V506", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <core::option::Option<BTreeSet<u32>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <core::option::Option<BTreeSet<u32>> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <[core::option::Option<u8>; 3usize] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <[core::option::Option<u8>; 3usize] as Default>::default().to_val()) }] },
        VariantDef { name: "V91", json: "V91", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V469", json: " ", kind: Kind::Named, fields: &[FieldDef { name: "cur", json: "cur", ron: "cur", ty: <(Box<u32>, u8, u16, P93,) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] },
        VariantDef { name: "V330", json: "V330", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V463", json: "V463", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V319", json: "V319", kind: Kind::Named, fields: &[FieldDef { name: "None", json: "None", ron: "None", ty: <std::collections::HashMap<Vec<bool>, Option<f64>> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <std::collections::HashMap<Vec<bool>, Option<f64>> as Default>::default().to_val()) }] },
        VariantDef { name: "V13", json: "V13", kind: Kind::Tuple, fields: &[] },
        VariantDef { name: "V385", json: "V385", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V408", json: "V408", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <LinkedList<P91<u8, (u8, String)>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <LinkedList<P91<u8, (u8, String)>> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <i8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i8 as Default>::default().to_val()) }] },
        VariantDef { name: "V505", json: "V505", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V50", json: "V50", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V150", json: "V150", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V129", json: "V129", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V39", json: "V39", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V115", json: "V115", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V121", json: "V121", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V315", json: "none", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V236", json: "V236", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V94", json: "V94", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V434", json: "Self_", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V165", json: "V165", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V415", json: "V415", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <P87<String, 1> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] },
        VariantDef { name: "V447", json: " a", kind: Kind::Tuple, fields: &[] },
        VariantDef { name: "V159", json: "V159", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <HashMap<P92, ::std::option::Option<String>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <HashMap<P92, ::std::option::Option<String>> as Default>::default().to_val()) }] },
        VariantDef { name: "V298", json: "V298", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V397", json: "V397", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V147", json: "Vec", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V275", json: "V275", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V9", json: "V9", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V134", json: "V134", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V60", json: "V60", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V78", json: "F", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V111", json: "V111", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V303", json: "V303", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V140", json: "V140", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V293", json: "V293", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V214", json: "V214", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V342", json: "V342", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V453", json: "V453", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <BTreeSet<u64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeSet<u64> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }] },
        VariantDef { name: "V148", json: "V148", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <f64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f64 as Default>::default().to_val()) }] },
        VariantDef { name: "V301", json: "V301", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V509", json: "V509", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V34", json: "V34", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <[f32; 4] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <[f32; 4] as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }] },
        VariantDef { name: "V257", json: "Struct", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V33", json: "V33", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V109", json: "First", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V14", json: "V14", kind: Kind::Named, fields: &[FieldDef { name: "s", json: "s", ron: "s", ty: <::std::option::Option<i32> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <::std::option::Option<i32> as Default>::default().to_val()) }] },
        VariantDef { name: "V223", json: "V223", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V242", json: "V242", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V438", json: "V438", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V427", json: "\t", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V455", json: "V455", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V89", json: "V89", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V218", json: "V218", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V82", json: "V82", kind: Kind::Named, fields: &[] },
        VariantDef { name: "V117", json: "V117", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V131", json: "V131", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <std::collections::BTreeSet<bool> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::collections::BTreeSet<bool> as Default>::default().to_val()) }] },
        VariantDef { name: "V329", json: "V329", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V458", json: "V458", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V475", json: "V475", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V207", json: "V207", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V79", json: "V79", kind: Kind::Named, fields: &[FieldDef { name: "first", json: "first", ron: "first", ty: <Option<<Alias<Vec<u8>> as self::Assoc>::Ty> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<<Alias<Vec<u8>> as self::Assoc>::Ty> as Default>::default().to_val()) }, FieldDef { name: "o", json: "o", ron: "o", ty: <usize as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <usize as Default>::default().to_val()) }] },
        VariantDef { name: "V138", json: "V138", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V419", json: ".", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V83", json: "V83", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V19", json: "V19", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V28", json: "V28", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V363", json: "V363", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V406", json: "V406", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V403", json: "V403", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V504", json: "V504", kind: Kind::Named, fields: &[] },
        VariantDef { name: "V64", json: "V64", kind: Kind::Named, fields: &[FieldDef { name: "i26", json: "i26", ron: "i26", ty: <P96<String, 1> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "out", json: "out", ron: "out", ty: <u16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u16 as Default>::default().to_val()) }, FieldDef { name: "long_field_name_that_goes_on_and_on_and_on_and_does_not_stop_here", json: "long_field_name_that_goes_on_and_on_and_on_and_does_not_stop_here", ron: "long_field_name_that_goes_on_and_on_and_on_and_does_not_stop_here", ty: <i32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i32 as Default>::default().to_val()) }] },
        VariantDef { name: "V425", json: "V425", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V278", json: "V278", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V352", json: "V352", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V345", json: "V345", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V108", json: "V108", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V15", json: "V15", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V361", json: "V361", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V391", json: "null", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V70", json: "V70", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <Option<[f32; 0]> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<[f32; 0]> as Default>::default().to_val()) }] },
        VariantDef { name: "V321", json: "V321", kind: Kind::Named, fields: &[] },
        VariantDef { name: "V62", json: "V62", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V316", json: "SHOUT", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <[i8; 0x3] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <[i8; 0x3] as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <Vec<[i8; 3usize]> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<[i8; 3usize]> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <Text as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Text as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <P101 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "", json: "", ron: "", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }] },
        VariantDef { name: "V198", json: "V198", kind: Kind::Named, fields: &[] },
        VariantDef { name: "V122", json: "V122", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V295", json: "V295", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V335", json: "V335", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V400", json: "V400", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V489", json: "}", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V154", json: "V154", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V243", json: "V243", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <u16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u16 as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <(P90, LinkedList<i64>) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] },
        VariantDef { name: "V76", json: "V76", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V205", json: "V205", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V228", json: "V228", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V468", json: "V468", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <usize as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <usize as Default>::default().to_val()) }] },
        VariantDef { name: "V271", json: "V271", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V204", json: "V204", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V344", json: "V344", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V362", json: "V362", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V187", json: "V187", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V36", json: "V36", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V327", json: "E", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V225", json: "a-b", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V488", json: "V488", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V127", json: "V127", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V451", json: "V451", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V462", json: "V462", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V231", json: "e", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V73", json: "V73", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V69", json: "V69", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V421", json: "V421", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V331", json: "V331", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V328", json: "V328", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V106", json: "V106", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V27", json: "V27", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V250", json: "V250", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V313", json: "V313", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V246", json: "V246", kind: Kind::Named, fields: &[FieldDef { name: "_0x", json: "_0x", ron: "_0x", ty: <i8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i8 as Default>::default().to_val()) }, FieldDef { name: "first_field_was_serialized", json: "first_field_was_serialized", ron: "first_field_was_serialized", ty: <std::option::Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <std::option::Option<String> as Default>::default().to_val()) }, FieldDef { name: "k9", json: "k9", ron: "k9", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }] },
        VariantDef { name: "V389", json: "a b", kind: Kind::Named, fields: &[FieldDef { name: "u8_", json: "u8_", ron: "u8_", ty: <(u64, P91<u8, (u8, String)>, BTreeMap<String, String>) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "deserialize_ron", json: "deserialize_ron", ron: "deserialize_ron", ty: <[std::collections::HashMap<String, u32>; 0x3] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <[std::collections::HashMap<String, u32>; 0x3] as Default>::default().to_val()) }, FieldDef { name: "o13", json: "o13", ron: "o13", ty: <(Vec<usize>, u8,) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(Vec<usize>, u8,) as Default>::default().to_val()) }] },
        VariantDef { name: "V471", json: "V471", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <BTreeMap<String, Vec<f32>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, Vec<f32>> as Default>::default().to_val()) }] },
        VariantDef { name: "V179", json: "V179", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V164", json: "V164", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V516", json: "V516", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V193", json: "fn", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V57", json: "V57", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V123", json: "V123", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V420", json: "V420", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V487", json: "V487", kind: Kind::Named, fields: &[FieldDef { name: "rename_", json: "rename_", ron: "rename_", ty: <[Duration; LEN] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <[Duration; LEN] as Default>::default().to_val()) }, FieldDef { name: "unknown", json: "unknown", ron: "unknown", ty: <P100 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <P100 as Default>::default().to_val()) }, FieldDef { name: "y", json: "y", ron: "y", ty: <Vec<i8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<i8> as Default>::default().to_val()) }] },
        VariantDef { name: "V183", json: " ", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V172", json: "V172", kind: Kind::Named, fields: &[] },
        VariantDef { name: "V356", json: "V356", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V222", json: "V222", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V386", json: "V386", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V55", json: "V55", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V433", json: "V433", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V189", json: "V189", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V169", json: "V169", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V272", json: "V272", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V372", json: "V372", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V518", json: "V518", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V258", json: "V258", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V341", json: "Tuple", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V376", json: "V376", kind: Kind::Named, fields: &[FieldDef { name: "std_", json: "std_", ron: "std_", ty: <Option<Duration> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Duration> as Default>::default().to_val()) }] },
        VariantDef { name: "V216", json: "}}", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V54", json: "V54", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <Duration as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Duration as Default>::default().to_val()) }] },
        VariantDef { name: "V202", json: "V202", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V230", json: "V230", kind: Kind::Named, fields: &[FieldDef { name: "y25", json: "y25", ron: "y25", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "_s", json: "_s", ron: "_s", ty: <std::collections::BTreeSet<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::collections::BTreeSet<u8> as Default>::default().to_val()) }, FieldDef { name: "buf", json: "buf", ron: "buf", ty: <P91<u8, i32> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "__y", json: "__y", ron: "__y", ty: <::std::option::Option<Duration> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <::std::option::Option<Duration> as Default>::default().to_val()) }] },
        VariantDef { name: "V393", json: "V393", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V515", json: "V515", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V180", json: "V180", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <P96<String, 1> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "", json: "", ron: "", ty: <[Option<u16>; 40] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "", json: "", ron: "", ty: <HashMap<Vec<u32>, P87<String, 1>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <HashMap<Vec<u32>, P87<String, 1>> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <Vec<u64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<u64> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <Kn<{ 9 >> 1 }> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Kn<{ 9 >> 1 }> as Default>::default().to_val()) }] },
        VariantDef { name: "V477", json: "V477", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V29", json: "V29", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }] },
        VariantDef { name: "V101", json: "V101", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V484", json: "V484", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V483", json: "V483", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V398", json: "V398", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V220", json: "V220", kind: Kind::Named, fields: &[FieldDef { name: "e38", json: "e38", ron: "e38", ty: <Option<Vec<u32>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<u32>> as Default>::default().to_val()) }, FieldDef { name: "d", json: "d", ron: "d", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }, FieldDef { name: "f95", json: "f95", ron: "f95", ty: <Option<BTreeMap<String, i64>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<BTreeMap<String, i64>> as Default>::default().to_val()) }, FieldDef { name: "camelCase", json: "camelCase", ron: "camelCase", ty: <f64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f64 as Default>::default().to_val()) }] },
        VariantDef { name: "V269", json: "V269", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <f64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f64 as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <(P91<u8, (u8, String)>, P101) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "", json: "", ron: "", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <::std::option::Option<BTreeMap<bool, i64>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <::std::option::Option<BTreeMap<bool, i64>> as Default>::default().to_val()) }] },
        VariantDef { name: "V404", json: "V404", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V464", json: "V464", kind: Kind::Named, fields: &[FieldDef { name: "r24", json: "r24", ron: "r24", ty: <Vec<P91<u8, i32>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<P91<u8, i32>> as Default>::default().to_val()) }, FieldDef { name: "k38", json: "k38", ron: "k38", ty: <String as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "out", json: "out", ron: "out", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }] },
        VariantDef { name: "V441", json: "V441", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V317", json: "V317", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V97", json: "V97", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <[BTreeSet<String>; 0] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <[BTreeSet<String>; 0] as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }] },
        VariantDef { name: "V233", json: "V233", kind: Kind::Named, fields: &[FieldDef { name: "data", json: "data", ron: "data", ty: <usize as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <usize as Default>::default().to_val()) }, FieldDef { name: "col", json: "col", ron: "col", ty: <[u32; { LEN + 1 }] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] },
        VariantDef { name: "V47", json: "V47", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V46", json: "V46", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V37", json: "V37", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <Option<usize> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<usize> as Default>::default().to_val()) }] },
        VariantDef { name: "V5", json: "Bar", kind: Kind::Named, fields: &[FieldDef { name: "numbuf", json: "numbuf", ron: "numbuf", ty: <BTreeSet<(u64, bool)> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeSet<(u64, bool)> as Default>::default().to_val()) }] },
        VariantDef { name: "V318", json: "V318", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V166", json: "x　", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V203", json: "V203", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V277", json: "V277", kind: Kind::Named, fields: &[FieldDef { name: "skip", json: "out", ron: "out", ty: <u16 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u16 as Default>::default().to_val()) }] },
        VariantDef { name: "V414", json: "V414", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V17", json: "V17", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V254", json: "V254", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V100", json: "V100", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <i32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i32 as Default>::default().to_val()) }] },
        VariantDef { name: "V481", json: "V481", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V519", json: "V519", kind: Kind::Named, fields: &[] },
        VariantDef { name: "V283", json: "V283", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V145", json: "V145", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V116", json: "East", kind: Kind::Named, fields: &[FieldDef { name: "b62", json: "b62", ron: "b62", ty: <std::collections::HashMap<i8, [f64; 2]> as Subject>::ty, skip: false, dflt: Dflt::Value(|| dflt_102_0().to_val()), is_opt: false, null_none: false, type_default: Some(|| <std::collections::HashMap<i8, [f64; 2]> as Default>::default().to_val()) }, FieldDef { name: "e1", json: "f0", ron: "f0", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }] },
        VariantDef { name: "V436", json: "V436", kind: Kind::Named, fields: &[FieldDef { name: "a59", json: "a59", ron: "a59", ty: <P93 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] },
        VariantDef { name: "V266", json: "V266", kind: Kind::Named, fields: &[FieldDef { name: "some_", json: "b", ron: "b", ty: <std::option::Option<::std::string::String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <std::option::Option<::std::string::String> as Default>::default().to_val()) }, FieldDef { name: "d", json: "d", ron: "d", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }, FieldDef { name: "y", json: "y", ron: "y", ty: <P91<u8, (u8, String)> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] },
        VariantDef { name: "V478", json: "V478", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V26", json: "V26", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V431", json: "V431", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V146", json: "V146", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V161", json: "V161", kind: Kind::Named, fields: &[FieldDef { name: "f1", json: "f1", ron: "f1", ty: <Box<[Duration; 1]> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Box<[Duration; 1]> as Default>::default().to_val()) }, FieldDef { name: "r#box", json: "box", ron: "box", ty: <P87<String, 1> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] },
        VariantDef { name: "V232", json: "V232", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <Vec<Box<i32>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<Box<i32>> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <inner::deeper::Word as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <inner::deeper::Word as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <std::option::Option<Vec<u16>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <std::option::Option<Vec<u16>> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <(u16, std::collections::HashMap<u16, Duration>) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(u16, std::collections::HashMap<u16, Duration>) as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <[Option<u8>; { LEN + 1 }] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] },
        VariantDef { name: "V126", json: "V126", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V153", json: "V153", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V118", json: "V118", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V201", json: "\u{7f}", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V413", json: "$ref", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V197", json: "V197", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <Duration as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Duration as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <SystemTime as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "", json: "", ron: "", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }] },
        VariantDef { name: "V485", json: "V485", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V112", json: "V112", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V167", json: "X3", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V252", json: "/*", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V308", json: "V308", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V48", json: "V48", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V432", json: "V432", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V217", json: "a.b", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V208", json: "V208", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V206", json: "V206", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V355", json: "V355", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <Option<i16> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<i16> as Default>::default().to_val()) }] },
        VariantDef { name: "V476", json: "V476", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V178", json: "V178", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V473", json: "V473", kind: Kind::Named, fields: &[] },
        VariantDef { name: "V22", json: "{}", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V139", json: "V139", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V21", json: "V21", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V394", json: "V394", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V248", json: "\\n", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <P91<u8, i32> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] },
        VariantDef { name: "V346", json: "V346", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V357", json: "V357", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V4", json: "V4", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <[String; 4] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <[String; 4] as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <Vec<P94> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<P94> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <std::collections::BTreeSet<(i64, u8)> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::collections::BTreeSet<(i64, u8)> as Default>::default().to_val()) }] },
        VariantDef { name: "V409", json: "V409", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V149", json: "V149", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V511", json: "None", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V490", json: "V490", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V30", json: "V30", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V299", json: "​", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V422", json: "V422", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V285", json: "V285", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V289", json: "V289", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V107", json: "V107", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V311", json: "V311", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V497", json: "V497", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V32", json: "V32", kind: Kind::Named, fields: &[FieldDef { name: "Some", json: "Some", ron: "Some", ty: <u16 as Subject>::ty, skip: false, dflt: Dflt::Value(|| dflt_102_1().to_val()), is_opt: false, null_none: false, type_default: Some(|| <u16 as Default>::default().to_val()) }, FieldDef { name: "None", json: "None", ron: "None", ty: <(core::option::Option<u32>, std::option::Option<i8>, i16, Option<u8>) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(core::option::Option<u32>, std::option::Option<i8>, i16, Option<u8>) as Default>::default().to_val()) }] },
        VariantDef { name: "V45", json: "V45", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V209", json: "//", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V80", json: "V80", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V503", json: "V503", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V348", json: "V348", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V174", json: "V174", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V263", json: "é", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V494", json: "V494", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V235", json: "V235", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V322", json: "V322", kind: Kind::Named, fields: &[FieldDef { name: "std_", json: "std_", ron: "std_", ty: <std::collections::BTreeSet<Vec<usize>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::collections::BTreeSet<Vec<usize>> as Default>::default().to_val()) }, FieldDef { name: "c28", json: "c28", ron: "c28", ty: <Option<Vec<Duration>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Duration>> as Default>::default().to_val()) }, FieldDef { name: "g77", json: "g77", ron: "g77", ty: <Kb<{ 1 > 2 }> as Subject>::ty, skip: false, dflt: Dflt::Value(|| dflt_102_2().to_val()), is_opt: false, null_none: false, type_default: Some(|| <Kb<{ 1 > 2 }> as Default>::default().to_val()) }] },
        VariantDef { name: "V212", json: "V212", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <P90 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "", json: "", ron: "", ty: <P100 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <P100 as Default>::default().to_val()) }] },
        VariantDef { name: "V444", json: "A", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V105", json: "V105", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V104", json: "V104", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V320", json: "V320", kind: Kind::Named, fields: &[FieldDef { name: "error", json: "error", ron: "error", ty: <P96<String, 1> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "int64", json: "int64", ron: "int64", ty: <f64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f64 as Default>::default().to_val()) }, FieldDef { name: "last", json: "last", ron: "last", ty: <std::collections::BTreeSet<Vec<i8>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| dflt_102_3().to_val()), is_opt: false, null_none: false, type_default: Some(|| <std::collections::BTreeSet<Vec<i8>> as Default>::default().to_val()) }] },
        VariantDef { name: "V401", json: "V401", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V349", json: "V349", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V262", json: "V262", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V264", json: "V264", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V304", json: "V304", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V181", json: "V181", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V424", json: "X2", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V449", json: "V449", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V353", json: "some", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V265", json: "NULL", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V38", json: "V38", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V162", json: "V162", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V186", json: "V186", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V244", json: "V244", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <BTreeMap<i64, OptAlias> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<i64, OptAlias> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <std::option::Option<[u32; 3usize]> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <std::option::Option<[u32; 3usize]> as Default>::default().to_val()) }] },
        VariantDef { name: "V405", json: "V405", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V41", json: "V41", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <std::collections::HashMap<(i8, i32), std::collections::BTreeSet<u16>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::collections::HashMap<(i8, i32), std::collections::BTreeSet<u16>> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <P92 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] },
        VariantDef { name: "V377", json: "V377", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V446", json: "V446", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V190", json: "V190", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V84", json: "V84", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <P96<(u8, String), 3> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] },
        VariantDef { name: "V324", json: "V324", kind: Kind::Named, fields: &[FieldDef { name: "none_", json: "none_", ron: "none_", ty: <P93 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "alloc_", json: "alloc_", ron: "alloc_", ty: <Vec<P100> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<P100> as Default>::default().to_val()) }] },
        VariantDef { name: "V42", json: "V42", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V312", json: "V312", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V314", json: "V314", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <u64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u64 as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <Option<u64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<u64> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <LinkedList<std::option::Option<usize>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <LinkedList<std::option::Option<usize>> as Default>::default().to_val()) }] },
        VariantDef { name: "V461", json: "V461", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V163", json: "V163", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V141", json: "V141", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V157", json: "V157", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V175", json: "V175", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V114", json: "V114", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V267", json: "V267", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V508", json: "V508", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V192", json: "V192", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V256", json: "V256", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V270", json: "V270", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V142", json: "Ok", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <u32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u32 as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <u16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u16 as Default>::default().to_val()) }] },
        VariantDef { name: "V337", json: "V337", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V282", json: "V282", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V152", json: "V152", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V247", json: "V247", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V160", json: "V160", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <P91<u8, i32> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "", json: "", ron: "", ty: <P91<u8, (u8, String)> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] },
        VariantDef { name: "V291", json: "V291", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V495", json: "V495", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V20", json: "V20", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V302", json: "V302", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <std::option::Option<(i8, i32,)> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <std::option::Option<(i8, i32,)> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <P101 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "", json: "", ron: "", ty: <P87<String, 1> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "", json: "", ron: "", ty: <(usize, Duration, u8, P101,) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "", json: "", ron: "", ty: <[std::collections::BTreeSet<u32>; 2 * LEN] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] },
        VariantDef { name: "V443", json: "V443", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V450", json: "V450", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V221", json: "\\", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V229", json: "true", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V124", json: "V124", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V280", json: "V280", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <LinkedList<std::vec::Vec<u32>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <LinkedList<std::vec::Vec<u32>> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <OptAlias as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <OptAlias as Default>::default().to_val()) }] },
        VariantDef { name: "V517", json: "V517", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V95", json: "V95", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V480", json: "V480", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V326", json: "V326", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V171", json: "V171", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V407", json: "V407", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V399", json: "V399", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V410", json: "\"", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <::std::option::Option<P87<Vec<u16>, 0>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <::std::option::Option<P87<Vec<u16>, 0>> as Default>::default().to_val()) }] },
        VariantDef { name: "V367", json: "Some", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V3", json: "V3", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <Vec<core::option::Option<i32>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<core::option::Option<i32>> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <u16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u16 as Default>::default().to_val()) }] },
        VariantDef { name: "V253", json: "V253", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V245", json: "V245", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V238", json: "V238", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V191", json: "V191", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V510", json: "V510", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V381", json: "V381", kind: Kind::Named, fields: &[FieldDef { name: "line", json: "line", ron: "line", ty: <[(usize, usize,); LEN] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <[(usize, usize,); LEN] as Default>::default().to_val()) }] },
        VariantDef { name: "V336", json: "V336", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V310", json: "V310", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V430", json: "V430", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V501", json: "V501", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V182", json: "V182", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V472", json: "V472", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V459", json: "V459", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V130", json: "a\t", kind: Kind::Named, fields: &[FieldDef { name: "r#move", json: "std_", ron: "std_", ty: <std::collections::BTreeSet<usize> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::collections::BTreeSet<usize> as Default>::default().to_val()) }, FieldDef { name: "x53", json: "first_field_was_serialized", ron: "first_field_was_serialized", ty: <P87<String, 1> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] },
        VariantDef { name: "V498", json: "V498", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V75", json: "V75", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <usize as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <usize as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <usize as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <usize as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <P91<u8, (u8, String)> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] },
        VariantDef { name: "V16", json: "type", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V251", json: "V251", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V239", json: "V239", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V261", json: "Default", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V2", json: "V2", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V72", json: "V72", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V388", json: "V388", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V292", json: "V292", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V215", json: " x ", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V457", json: "Some_", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V119", json: "V119", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V435", json: "V435", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V0", json: "skip", kind: Kind::Named, fields: &[FieldDef { name: "u5", json: "u5", ron: "u5", ty: <Kn<-1> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Kn<-1> as Default>::default().to_val()) }, FieldDef { name: "first_field_was_serialized", json: "first_field_was_serialized", ron: "first_field_was_serialized", ty: <Vec<bool> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<bool> as Default>::default().to_val()) }, FieldDef { name: "u75", json: "u75", ron: "u75", ty: <i32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i32 as Default>::default().to_val()) }, FieldDef { name: "name", json: "crate", ron: "crate", ty: <std::option::Option<Vec<Duration>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <std::option::Option<Vec<Duration>> as Default>::default().to_val()) }] },
        VariantDef { name: "V110", json: ",", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V85", json: "V85", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V375", json: "V375", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V56", json: "V56", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V158", json: "None0", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V360", json: "V360", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V338", json: "V338", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V339", json: "\nx", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V24", json: "V24", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V396", json: "V396", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V325", json: "V325", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V61", json: "V61", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V365", json: "V365", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V378", json: "V378", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V412", json: "V412", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <i8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i8 as Default>::default().to_val()) }] },
        VariantDef { name: "V402", json: "V402", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <u32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u32 as Default>::default().to_val()) }] },
        VariantDef { name: "V288", json: "V288", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V11", json: "V11", kind: Kind::Named, fields: &[FieldDef { name: "last", json: "last", ron: "last", ty: <::std::string::String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <::std::string::String as Default>::default().to_val()) }] },
        VariantDef { name: "V23", json: "String", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V90", json: "V90", kind: Kind::Named, fields: &[FieldDef { name: "name", json: "name", ron: "name", ty: <P96<(u8, String), 3> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] },
        VariantDef { name: "V368", json: "V368", kind: Kind::Named, fields: &[FieldDef { name: "i23", json: "i23", ron: "i23", ty: <Duration as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Duration as Default>::default().to_val()) }] },
        VariantDef { name: "V416", json: "V416", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V305", json: "V305", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V306", json: "V306", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <usize as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <usize as Default>::default().to_val()) }] },
        VariantDef { name: "V276", json: "NaN", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }] },
        VariantDef { name: "V88", json: "V88", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V281", json: "V281", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V334", json: "V334", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V213", json: "V213", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V10", json: "V10", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V347", json: "V347", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V323", json: "V323", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V156", json: "V156", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V53", json: "V53", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V284", json: "V284", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <P100 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <P100 as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <[Option<i16>; 0x3] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <[Option<i16>; 0x3] as Default>::default().to_val()) }] },
        VariantDef { name: "V350", json: "V350", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <Duration as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Duration as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <([String; 3usize], ::std::option::Option<u32>,) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <([String; 3usize], ::std::option::Option<u32>,) as Default>::default().to_val()) }] },
        VariantDef { name: "V12", json: "a.", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V300", json: "V300", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V426", json: "V426", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V96", json: "V96", kind: Kind::Named, fields: &[FieldDef { name: "cur", json: "cur", ron: "cur", ty: <LinkedList<(usize, u64, f32,)> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <LinkedList<(usize, u64, f32,)> as Default>::default().to_val()) }, FieldDef { name: "r1", json: "r1", ron: "r1", ty: <u32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u32 as Default>::default().to_val()) }] },
        VariantDef { name: "V58", json: "V58", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V224", json: "V224", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V354", json: "V354", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V184", json: "V184", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V460", json: "V460", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V268", json: "V268", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <Vec<P94> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<P94> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <std::vec::Vec<i32> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::vec::Vec<i32> as Default>::default().to_val()) }] },
        VariantDef { name: "V98", json: "V98", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V6", json: "a ", kind: Kind::Named, fields: &[FieldDef { name: "y", json: "state", ron: "state", ty: <usize as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <usize as Default>::default().to_val()) }] },
        VariantDef { name: "V333", json: "V333", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V392", json: "V392", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V417", json: "V417", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V418", json: "V418", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V226", json: "V226", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <[P93; 2 * LEN] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] },
        VariantDef { name: "V296", json: "V296", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V51", json: "V51", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V364", json: "V364", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V351", json: "V351", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <LinkedList<LinkedList<u16>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <LinkedList<LinkedList<u16>> as Default>::default().to_val()) }] },
        VariantDef { name: "V445", json: "V445", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V379", json: "V379", kind: Kind::Tuple, fields: &[] },
        VariantDef { name: "V373", json: "V373", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V294", json: "V294", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <Box<std::option::Option<u64>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Box<std::option::Option<u64>> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <[P90; 2] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "", json: "", ron: "", ty: <(SystemTime, Box<i16>, P96<(u8, String), 3>,) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "", json: "", ron: "", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }] },
        VariantDef { name: "V77", json: "V77", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V151", json: "inf", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V502", json: "V502", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V507", json: "1", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V43", json: "V43", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V68", json: "VeryLongVariantNameThatGoesOnAndOn", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V309", json: "V309", kind: Kind::Named, fields: &[FieldDef { name: "b75", json: "b75", ron: "b75", ty: <P94 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <P94 as Default>::default().to_val()) }, FieldDef { name: "rename_", json: "rename_", ron: "rename_", ty: <f64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f64 as Default>::default().to_val()) }] },
        VariantDef { name: "V382", json: "V382", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V44", json: "V44", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V194", json: ":", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V74", json: "Option", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V199", json: "C", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V8", json: "a=1", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V492", json: "V492", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V237", json: "V237", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V241", json: "Foo", kind: Kind::Named, fields: &[FieldDef { name: "Option_", json: "Option_", ron: "Option_", ty: <Duration as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Duration as Default>::default().to_val()) }, FieldDef { name: "h18", json: "h18", ron: "h18", ty: <f64 as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: f64 = -0.25; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <f64 as Default>::default().to_val()) }, FieldDef { name: "m32", json: "m32", ron: "m32", ty: <P94 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <P94 as Default>::default().to_val()) }, FieldDef { name: "k83", json: "k83", ron: "k83", ty: <Duration as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Duration as Default>::default().to_val()) }] },
        VariantDef { name: "V173", json: "V173", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V66", json: "V66", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V440", json: "V440", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V387", json: "V387", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V479", json: "V479", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V25", json: "V25", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V259", json: "V259", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <BTreeSet<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeSet<String> as Default>::default().to_val()) }] },
        VariantDef { name: "V286", json: "nan", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V67", json: "V67", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V482", json: "x ", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V71", json: "V71", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V63", json: "V63", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V1", json: "V1", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V366", json: "x\n", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V514", json: "South", kind: Kind::Named, fields: &[] },
        VariantDef { name: "V170", json: "V170", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V81", json: "V81", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V442", json: "V442", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V466", json: "V466", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V113", json: "V113", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V65", json: "D", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V369", json: "V369", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V279", json: "V279", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V128", json: "V128", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V185", json: "V185", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V470", json: "Green", kind: Kind::Named, fields: &[FieldDef { name: "c", json: "c", ron: "c", ty: <u16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u16 as Default>::default().to_val()) }, FieldDef { name: "y90", json: "y90", ron: "y90", ty: <P87<String, 1> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "unknown", json: "unknown", ron: "unknown", ty: <[P101; 3] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "default", json: "default", ron: "default", ty: <(Duration, P91<u8, i32>,) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] },
        VariantDef { name: "V452", json: "V452", kind: Kind::Named, fields: &[FieldDef { name: "r1", json: "r1", ron: "r1", ty: <(HashMap<String, f32>, P87<Vec<u16>, 0>,) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "nul", json: "nul", ron: "nul", ty: <Vec<P96<String, 1>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<P96<String, 1>> as Default>::default().to_val()) }] },
        VariantDef { name: "V87", json: "V87", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V465", json: "V465", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V428", json: "'", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V395", json: "😀", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V423", json: "V423", kind: Kind::Named, fields: &[FieldDef { name: "x56", json: "x", ron: "x", ty: <SystemTime as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] },
        VariantDef { name: "V196", json: "V196", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }] },
        VariantDef { name: "V168", json: "V168", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V103", json: "V103", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V474", json: "V474", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V380", json: "V380", kind: Kind::Named, fields: &[FieldDef { name: "r92", json: "r92", ron: "r92", ty: <Duration as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Duration as Default>::default().to_val()) }, FieldDef { name: "l25", json: "l25", ron: "l25", ty: <P96<(u8, String), 3> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "a__b", json: "a_", ron: "a_", ty: <SystemTime as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] },
        VariantDef { name: "V456", json: "V456", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V240", json: "V240", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V144", json: "V144", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V227", json: "ключ", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V491", json: "V491", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V287", json: "V287", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <BTreeSet<(String, usize)> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeSet<(String, usize)> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <Vec<::std::option::Option<f32>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<::std::option::Option<f32>> as Default>::default().to_val()) }] },
        VariantDef { name: "V35", json: "a::b", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V486", json: "V486", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V332", json: "V332", kind: Kind::Named, fields: &[FieldDef { name: "f56", json: "f1", ron: "f1", ty: <(P91<u8, (u8, String)>, LinkedList<u32>, Duration, (i64, Kn<{ 9 >> 1 }>, i16,)) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] },
        VariantDef { name: "V384", json: "V384", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V290", json: "V290", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V86", json: "NONE", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V195", json: "V195", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V500", json: "V500", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <Vec<SystemTime> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<SystemTime> as Default>::default().to_val()) }] },
        VariantDef { name: "V219", json: "V219", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V102", json: "V102", kind: Kind::Named, fields: &[FieldDef { name: "rename_", json: "nul", ron: "nul", ty: <P90 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "strbuf", json: "Some", ron: "Some", ty: <std::vec::Vec<u32> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::vec::Vec<u32> as Default>::default().to_val()) }] },
        VariantDef { name: "V135", json: "V135", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V307", json: "V307", kind: Kind::Named, fields: &[FieldDef { name: "f", json: "f", ron: "f", ty: <LinkedList<u64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <LinkedList<u64> as Default>::default().to_val()) }] },
        VariantDef { name: "V274", json: "V274", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V188", json: "default", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V496", json: "lower", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V176", json: "B", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V467", json: "V467", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V31", json: "V31", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <std::collections::HashMap<Box<u64>, f32> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::collections::HashMap<Box<u64>, f32> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <(Kb<{ 'a' == '}' }>, u64) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(Kb<{ 'a' == '}' }>, u64) as Default>::default().to_val()) }] },
        VariantDef { name: "V429", json: "V429", kind: Kind::Named, fields: &[FieldDef { name: "p37", json: "p37", ron: "p37", ty: <std::collections::BTreeSet<Vec<usize>> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <std::collections::BTreeSet<Vec<usize>> as Default>::default().to_val()) }, FieldDef { name: "inf", json: "inf", ron: "inf", ty: <std::vec::Vec<Option<usize>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::vec::Vec<Option<usize>> as Default>::default().to_val()) }] },
        VariantDef { name: "V49", json: "V49", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V499", json: "V499", kind: Kind::Named, fields: &[FieldDef { name: "c77", json: "c77", ron: "c77", ty: <P96<String, 1> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "m63", json: "NONE", ron: "NONE", ty: <P101 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "id", json: "id", ron: "id", ty: <Vec<LinkedList<Kn<7>>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<LinkedList<Kn<7>>> as Default>::default().to_val()) }, FieldDef { name: "b78", json: "b78", ron: "b78", ty: <BTreeMap<P100, (i32, u8,)> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<P100, (i32, u8,)> as Default>::default().to_val()) }] },
        VariantDef { name: "V210", json: "V210", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V343", json: "V343", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V512", json: "V512", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V59", json: "V59", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V255", json: "V255", kind: Kind::Named, fields: &[FieldDef { name: "e80", json: "e80", ron: "e80", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }, FieldDef { name: "first_field_was_serialized", json: "first_field_was_serialized", ron: "first_field_was_serialized", ty: <f64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f64 as Default>::default().to_val()) }, FieldDef { name: "NULL", json: "NULL", ron: "NULL", ty: <String as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: String = String::from("//"); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] },
        VariantDef { name: "V143", json: "V143", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V371", json: "V371", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <HashSet<P92> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <HashSet<P92> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <::std::option::Option<u64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <::std::option::Option<u64> as Default>::default().to_val()) }] },
        VariantDef { name: "V390", json: "V390", kind: Kind::Named, fields: &[FieldDef { name: "c43", json: "snake_case_name", ron: "snake_case_name", ty: <P90 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "d90", json: "d90", ron: "d90", ty: <() as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <() as Default>::default().to_val()) }, FieldDef { name: "g94", json: "g94", ron: "g94", ty: <std::string::String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::string::String as Default>::default().to_val()) }, FieldDef { name: "j26", json: "j26", ron: "j26", ty: <P96<String, 1> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] },
        VariantDef { name: "V133", json: "V133", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V7", json: "V7", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V18", json: "V18", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V297", json: "None_", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V200", json: "V200", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V260", json: "A ", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V125", json: "V125", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V136", json: "V136", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V120", json: "V120", kind: Kind::Named, fields: &[] },
        VariantDef { name: "V359", json: "V359", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V249", json: "  ", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V132", json: "V132", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V340", json: "V340", kind: Kind::Tuple, fields: &[] },
        VariantDef { name: "V92", json: "V92", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V234", json: "V234", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V374", json: "V374", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V93", json: "V93", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "V99", json: "V99", kind: Kind::Unit, fields: &[] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::V411, 1 => Self::V155 { r70: Subject::from_val(&x_[0]), s: Subject::from_val(&x_[1]) }, 2 => Self::V513, 3 => Self::V211, 4 => Self::V52, 5 => Self::V454, 6 => Self::V439(), 7 => Self::V177 { long_field_name_that_goes_on_and_on_and_on_and_does_not_stop_here: Subject::from_val(&x_[0]) }, 8 => Self::V437(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), 9 => Self::V40, 10 => Self::V273, 11 => Self::V383, 12 => Self::V370, 13 => Self::V493, 14 => Self::V358, 15 => Self::V137, 16 => Self::V448(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), 17 => Self::V506(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), 18 => Self::V91, 19 => Self::V469 { cur: Subject::from_val(&x_[0]) }, 20 => Self::V330, 21 => Self::V463, 22 => Self::V319 { None: Subject::from_val(&x_[0]) }, 23 => Self::V13(), 24 => Self::V385, 25 => Self::V408(Subject::from_val(&x_[0]), Subject::from_val(&x_[1]), Subject::from_val(&x_[2])), 26 => Self::V505, 27 => Self::V50, 28 => Self::V150, 29 => Self::V129, 30 => Self::V39, 31 => Self::V115, 32 => Self::V121, 33 => Self::V315, 34 => Self::V236, 35 => Self::V94, 36 => Self::V434, 37 => Self::V165, 38 => Self::V415(Subject::from_val(&x_[0])), 39 => Self::V447(), 40 => Self::V159(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), 41 => Self::V298, 42 => Self::V397, 43 => Self::V147, 44 => Self::V275, 45 => Self::V9, 46 => Self::V134, 47 => Self::V60, 48 => Self::V78, 49 => Self::V111, 50 => Self::V303, 51 => Self::V140, 52 => Self::V293, 53 => Self::V214, 54 => Self::V342, 55 => Self::V453(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), 56 => Self::V148(Subject::from_val(&x_[0])), 57 => Self::V301, 58 => Self::V509, 59 => Self::V34(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), 60 => Self::V257, 61 => Self::V33, 62 => Self::V109, 63 => Self::V14 { s: Subject::from_val(&x_[0]) }, 64 => Self::V223, 65 => Self::V242, 66 => Self::V438, 67 => Self::V427, 68 => Self::V455, 69 => Self::V89, 70 => Self::V218, 71 => Self::V82 {  }, 72 => Self::V117, 73 => Self::V131(Subject::from_val(&x_[0])), 74 => Self::V329, 75 => Self::V458, 76 => Self::V475, 77 => Self::V207, 78 => Self::V79 { first: Subject::from_val(&x_[0]), o: Subject::from_val(&x_[1]) }, 79 => Self::V138, 80 => Self::V419, 81 => Self::V83, 82 => Self::V19, 83 => Self::V28, 84 => Self::V363, 85 => Self::V406, 86 => Self::V403, 87 => Self::V504 {  }, 88 => Self::V64 { i26: Subject::from_val(&x_[0]), out: Subject::from_val(&x_[1]), long_field_name_that_goes_on_and_on_and_on_and_does_not_stop_here: Subject::from_val(&x_[2]) }, 89 => Self::V425, 90 => Self::V278, 91 => Self::V352, 92 => Self::V345, 93 => Self::V108, 94 => Self::V15, 95 => Self::V361, 96 => Self::V391, 97 => Self::V70(Subject::from_val(&x_[0])), 98 => Self::V321 {  }, 99 => Self::V62, 100 => Self::V316(Subject::from_val(&x_[0]), Subject::from_val(&x_[1]), Subject::from_val(&x_[2]), Subject::from_val(&x_[3]), Subject::from_val(&x_[4])), 101 => Self::V198 {  }, 102 => Self::V122, 103 => Self::V295, 104 => Self::V335, 105 => Self::V400, 106 => Self::V489, 107 => Self::V154, 108 => Self::V243(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), 109 => Self::V76, 110 => Self::V205, 111 => Self::V228, 112 => Self::V468(Subject::from_val(&x_[0])), 113 => Self::V271, 114 => Self::V204, 115 => Self::V344, 116 => Self::V362, 117 => Self::V187, 118 => Self::V36, 119 => Self::V327, 120 => Self::V225, 121 => Self::V488, 122 => Self::V127, 123 => Self::V451, 124 => Self::V462, 125 => Self::V231, 126 => Self::V73, 127 => Self::V69, 128 => Self::V421, 129 => Self::V331, 130 => Self::V328, 131 => Self::V106, 132 => Self::V27, 133 => Self::V250, 134 => Self::V313, 135 => Self::V246 { _0x: Subject::from_val(&x_[0]), first_field_was_serialized: Subject::from_val(&x_[1]), k9: Subject::from_val(&x_[2]) }, 136 => Self::V389 { u8_: Subject::from_val(&x_[0]), deserialize_ron: Subject::from_val(&x_[1]), o13: Subject::from_val(&x_[2]) }, 137 => Self::V471(Subject::from_val(&x_[0])), 138 => Self::V179, 139 => Self::V164, 140 => Self::V516, 141 => Self::V193, 142 => Self::V57, 143 => Self::V123, 144 => Self::V420, 145 => Self::V487 { rename_: Subject::from_val(&x_[0]), unknown: Subject::from_val(&x_[1]), y: Subject::from_val(&x_[2]) }, 146 => Self::V183, 147 => Self::V172 {  }, 148 => Self::V356, 149 => Self::V222, 150 => Self::V386, 151 => Self::V55, 152 => Self::V433, 153 => Self::V189, 154 => Self::V169, 155 => Self::V272, 156 => Self::V372, 157 => Self::V518, 158 => Self::V258, 159 => Self::V341, 160 => Self::V376 { std_: Subject::from_val(&x_[0]) }, 161 => Self::V216, 162 => Self::V54(Subject::from_val(&x_[0])), 163 => Self::V202, 164 => Self::V230 { y25: Subject::from_val(&x_[0]), _s: Subject::from_val(&x_[1]), buf: Subject::from_val(&x_[2]), __y: Subject::from_val(&x_[3]) }, 165 => Self::V393, 166 => Self::V515, 167 => Self::V180(Subject::from_val(&x_[0]), Subject::from_val(&x_[1]), Subject::from_val(&x_[2]), Subject::from_val(&x_[3]), Subject::from_val(&x_[4])), 168 => Self::V477, 169 => Self::V29(Subject::from_val(&x_[0])), 170 => Self::V101, 171 => Self::V484, 172 => Self::V483, 173 => Self::V398, 174 => Self::V220 { e38: Subject::from_val(&x_[0]), d: Subject::from_val(&x_[1]), f95: Subject::from_val(&x_[2]), camelCase: Subject::from_val(&x_[3]) }, 175 => Self::V269(Subject::from_val(&x_[0]), Subject::from_val(&x_[1]), Subject::from_val(&x_[2]), Subject::from_val(&x_[3]), Subject::from_val(&x_[4])), 176 => Self::V404, 177 => Self::V464 { r24: Subject::from_val(&x_[0]), k38: Subject::from_val(&x_[1]), out: Subject::from_val(&x_[2]) }, 178 => Self::V441, 179 => Self::V317, 180 => Self::V97(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), 181 => Self::V233 { data: Subject::from_val(&x_[0]), col: Subject::from_val(&x_[1]) }, 182 => Self::V47, 183 => Self::V46, 184 => Self::V37(Subject::from_val(&x_[0])), 185 => Self::V5 { numbuf: Subject::from_val(&x_[0]) }, 186 => Self::V318, 187 => Self::V166, 188 => Self::V203, 189 => Self::V277 { skip: Subject::from_val(&x_[0]) }, 190 => Self::V414, 191 => Self::V17, 192 => Self::V254, 193 => Self::V100(Subject::from_val(&x_[0])), 194 => Self::V481, 195 => Self::V519 {  }, 196 => Self::V283, 197 => Self::V145, 198 => Self::V116 { b62: Subject::from_val(&x_[0]), e1: Subject::from_val(&x_[1]) }, 199 => Self::V436 { a59: Subject::from_val(&x_[0]) }, 200 => Self::V266 { some_: Subject::from_val(&x_[0]), d: Subject::from_val(&x_[1]), y: Subject::from_val(&x_[2]) }, 201 => Self::V478, 202 => Self::V26, 203 => Self::V431, 204 => Self::V146, 205 => Self::V161 { f1: Subject::from_val(&x_[0]), r#box: Subject::from_val(&x_[1]) }, 206 => Self::V232(Subject::from_val(&x_[0]), Subject::from_val(&x_[1]), Subject::from_val(&x_[2]), Subject::from_val(&x_[3]), Subject::from_val(&x_[4])), 207 => Self::V126, 208 => Self::V153, 209 => Self::V118, 210 => Self::V201, 211 => Self::V413, 212 => Self::V197(Subject::from_val(&x_[0]), Subject::from_val(&x_[1]), Subject::from_val(&x_[2])), 213 => Self::V485, 214 => Self::V112, 215 => Self::V167, 216 => Self::V252, 217 => Self::V308, 218 => Self::V48, 219 => Self::V432, 220 => Self::V217, 221 => Self::V208, 222 => Self::V206, 223 => Self::V355(Subject::from_val(&x_[0])), 224 => Self::V476, 225 => Self::V178, 226 => Self::V473 {  }, 227 => Self::V22, 228 => Self::V139, 229 => Self::V21, 230 => Self::V394, 231 => Self::V248(Subject::from_val(&x_[0])), 232 => Self::V346, 233 => Self::V357, 234 => Self::V4(Subject::from_val(&x_[0]), Subject::from_val(&x_[1]), Subject::from_val(&x_[2])), 235 => Self::V409, 236 => Self::V149, 237 => Self::V511, 238 => Self::V490, 239 => Self::V30, 240 => Self::V299, 241 => Self::V422, 242 => Self::V285, 243 => Self::V289, 244 => Self::V107, 245 => Self::V311, 246 => Self::V497, 247 => Self::V32 { Some: Subject::from_val(&x_[0]), None: Subject::from_val(&x_[1]) }, 248 => Self::V45, 249 => Self::V209, 250 => Self::V80, 251 => Self::V503, 252 => Self::V348, 253 => Self::V174, 254 => Self::V263, 255 => Self::V494, 256 => Self::V235, 257 => Self::V322 { std_: Subject::from_val(&x_[0]), c28: Subject::from_val(&x_[1]), g77: Subject::from_val(&x_[2]) }, 258 => Self::V212(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), 259 => Self::V444, 260 => Self::V105, 261 => Self::V104, 262 => Self::V320 { error: Subject::from_val(&x_[0]), int64: Subject::from_val(&x_[1]), last: Subject::from_val(&x_[2]) }, 263 => Self::V401, 264 => Self::V349, 265 => Self::V262, 266 => Self::V264, 267 => Self::V304, 268 => Self::V181, 269 => Self::V424, 270 => Self::V449, 271 => Self::V353, 272 => Self::V265, 273 => Self::V38, 274 => Self::V162, 275 => Self::V186, 276 => Self::V244(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), 277 => Self::V405, 278 => Self::V41(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), 279 => Self::V377, 280 => Self::V446, 281 => Self::V190, 282 => Self::V84(Subject::from_val(&x_[0])), 283 => Self::V324 { none_: Subject::from_val(&x_[0]), alloc_: Subject::from_val(&x_[1]) }, 284 => Self::V42, 285 => Self::V312, 286 => Self::V314(Subject::from_val(&x_[0]), Subject::from_val(&x_[1]), Subject::from_val(&x_[2])), 287 => Self::V461, 288 => Self::V163, 289 => Self::V141, 290 => Self::V157, 291 => Self::V175, 292 => Self::V114, 293 => Self::V267, 294 => Self::V508, 295 => Self::V192, 296 => Self::V256, 297 => Self::V270, 298 => Self::V142(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), 299 => Self::V337, 300 => Self::V282, 301 => Self::V152, 302 => Self::V247, 303 => Self::V160(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), 304 => Self::V291, 305 => Self::V495, 306 => Self::V20, 307 => Self::V302(Subject::from_val(&x_[0]), Subject::from_val(&x_[1]), Subject::from_val(&x_[2]), Subject::from_val(&x_[3]), Subject::from_val(&x_[4])), 308 => Self::V443, 309 => Self::V450, 310 => Self::V221, 311 => Self::V229, 312 => Self::V124, 313 => Self::V280(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), 314 => Self::V517, 315 => Self::V95, 316 => Self::V480, 317 => Self::V326, 318 => Self::V171, 319 => Self::V407, 320 => Self::V399, 321 => Self::V410(Subject::from_val(&x_[0])), 322 => Self::V367, 323 => Self::V3(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), 324 => Self::V253, 325 => Self::V245, 326 => Self::V238, 327 => Self::V191, 328 => Self::V510, 329 => Self::V381 { line: Subject::from_val(&x_[0]) }, 330 => Self::V336, 331 => Self::V310, 332 => Self::V430, 333 => Self::V501, 334 => Self::V182, 335 => Self::V472, 336 => Self::V459, 337 => Self::V130 { r#move: Subject::from_val(&x_[0]), x53: Subject::from_val(&x_[1]) }, 338 => Self::V498, 339 => Self::V75(Subject::from_val(&x_[0]), Subject::from_val(&x_[1]), Subject::from_val(&x_[2])), 340 => Self::V16, 341 => Self::V251, 342 => Self::V239, 343 => Self::V261, 344 => Self::V2, 345 => Self::V72, 346 => Self::V388, 347 => Self::V292, 348 => Self::V215, 349 => Self::V457, 350 => Self::V119, 351 => Self::V435, 352 => Self::V0 { u5: Subject::from_val(&x_[0]), first_field_was_serialized: Subject::from_val(&x_[1]), u75: Subject::from_val(&x_[2]), name: Subject::from_val(&x_[3]) }, 353 => Self::V110, 354 => Self::V85, 355 => Self::V375, 356 => Self::V56, 357 => Self::V158, 358 => Self::V360, 359 => Self::V338, 360 => Self::V339, 361 => Self::V24, 362 => Self::V396, 363 => Self::V325, 364 => Self::V61, 365 => Self::V365, 366 => Self::V378, 367 => Self::V412(Subject::from_val(&x_[0])), 368 => Self::V402(Subject::from_val(&x_[0])), 369 => Self::V288, 370 => Self::V11 { last: Subject::from_val(&x_[0]) }, 371 => Self::V23, 372 => Self::V90 { name: Subject::from_val(&x_[0]) }, 373 => Self::V368 { i23: Subject::from_val(&x_[0]) }, 374 => Self::V416, 375 => Self::V305, 376 => Self::V306(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), 377 => Self::V276(Subject::from_val(&x_[0])), 378 => Self::V88, 379 => Self::V281, 380 => Self::V334, 381 => Self::V213, 382 => Self::V10, 383 => Self::V347, 384 => Self::V323, 385 => Self::V156, 386 => Self::V53, 387 => Self::V284(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), 388 => Self::V350(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), 389 => Self::V12, 390 => Self::V300, 391 => Self::V426, 392 => Self::V96 { cur: Subject::from_val(&x_[0]), r1: Subject::from_val(&x_[1]) }, 393 => Self::V58, 394 => Self::V224, 395 => Self::V354, 396 => Self::V184, 397 => Self::V460, 398 => Self::V268(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), 399 => Self::V98, 400 => Self::V6 { y: Subject::from_val(&x_[0]) }, 401 => Self::V333, 402 => Self::V392, 403 => Self::V417, 404 => Self::V418, 405 => Self::V226(Subject::from_val(&x_[0])), 406 => Self::V296, 407 => Self::V51, 408 => Self::V364, 409 => Self::V351(Subject::from_val(&x_[0])), 410 => Self::V445, 411 => Self::V379(), 412 => Self::V373, 413 => Self::V294(Subject::from_val(&x_[0]), Subject::from_val(&x_[1]), Subject::from_val(&x_[2]), Subject::from_val(&x_[3]), Subject::from_val(&x_[4])), 414 => Self::V77, 415 => Self::V151, 416 => Self::V502, 417 => Self::V507, 418 => Self::V43, 419 => Self::V68, 420 => Self::V309 { b75: Subject::from_val(&x_[0]), rename_: Subject::from_val(&x_[1]) }, 421 => Self::V382, 422 => Self::V44, 423 => Self::V194, 424 => Self::V74, 425 => Self::V199, 426 => Self::V8, 427 => Self::V492, 428 => Self::V237, 429 => Self::V241 { Option_: Subject::from_val(&x_[0]), h18: Subject::from_val(&x_[1]), m32: Subject::from_val(&x_[2]), k83: Subject::from_val(&x_[3]) }, 430 => Self::V173, 431 => Self::V66, 432 => Self::V440, 433 => Self::V387, 434 => Self::V479, 435 => Self::V25, 436 => Self::V259(Subject::from_val(&x_[0])), 437 => Self::V286, 438 => Self::V67, 439 => Self::V482, 440 => Self::V71, 441 => Self::V63, 442 => Self::V1, 443 => Self::V366, 444 => Self::V514 {  }, 445 => Self::V170, 446 => Self::V81, 447 => Self::V442, 448 => Self::V466, 449 => Self::V113, 450 => Self::V65, 451 => Self::V369, 452 => Self::V279, 453 => Self::V128, 454 => Self::V185, 455 => Self::V470 { c: Subject::from_val(&x_[0]), y90: Subject::from_val(&x_[1]), unknown: Subject::from_val(&x_[2]), default: Subject::from_val(&x_[3]) }, 456 => Self::V452 { r1: Subject::from_val(&x_[0]), nul: Subject::from_val(&x_[1]) }, 457 => Self::V87, 458 => Self::V465, 459 => Self::V428, 460 => Self::V395, 461 => Self::V423 { x56: Subject::from_val(&x_[0]) }, 462 => Self::V196(Subject::from_val(&x_[0])), 463 => Self::V168, 464 => Self::V103, 465 => Self::V474, 466 => Self::V380 { r92: Subject::from_val(&x_[0]), l25: Subject::from_val(&x_[1]), a__b: Subject::from_val(&x_[2]) }, 467 => Self::V456, 468 => Self::V240, 469 => Self::V144, 470 => Self::V227, 471 => Self::V491, 472 => Self::V287(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), 473 => Self::V35, 474 => Self::V486, 475 => Self::V332 { f56: Subject::from_val(&x_[0]) }, 476 => Self::V384, 477 => Self::V290, 478 => Self::V86, 479 => Self::V195, 480 => Self::V500(Subject::from_val(&x_[0])), 481 => Self::V219, 482 => Self::V102 { rename_: Subject::from_val(&x_[0]), strbuf: Subject::from_val(&x_[1]) }, 483 => Self::V135, 484 => Self::V307 { f: Subject::from_val(&x_[0]) }, 485 => Self::V274, 486 => Self::V188, 487 => Self::V496, 488 => Self::V176, 489 => Self::V467, 490 => Self::V31(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), 491 => Self::V429 { p37: Subject::from_val(&x_[0]), inf: Subject::from_val(&x_[1]) }, 492 => Self::V49, 493 => Self::V499 { c77: Subject::from_val(&x_[0]), m63: Subject::from_val(&x_[1]), id: Subject::from_val(&x_[2]), b78: Subject::from_val(&x_[3]) }, 494 => Self::V210, 495 => Self::V343, 496 => Self::V512, 497 => Self::V59, 498 => Self::V255 { e80: Subject::from_val(&x_[0]), first_field_was_serialized: Subject::from_val(&x_[1]), NULL: Subject::from_val(&x_[2]) }, 499 => Self::V143, 500 => Self::V371(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), 501 => Self::V390 { c43: Subject::from_val(&x_[0]), d90: Subject::from_val(&x_[1]), g94: Subject::from_val(&x_[2]), j26: Subject::from_val(&x_[3]) }, 502 => Self::V133, 503 => Self::V7, 504 => Self::V18, 505 => Self::V297, 506 => Self::V200, 507 => Self::V260, 508 => Self::V125, 509 => Self::V136, 510 => Self::V120 {  }, 511 => Self::V359, 512 => Self::V249, 513 => Self::V132, 514 => Self::V340(), 515 => Self::V92, 516 => Self::V234, 517 => Self::V374, 518 => Self::V93, 519 => Self::V99, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::V411 => Val::Enum(0, vec![]), Self::V155 { r70: b0, s: b1 } => Val::Enum(1, vec![b0.to_val(), b1.to_val()]), Self::V513 => Val::Enum(2, vec![]), Self::V211 => Val::Enum(3, vec![]), Self::V52 => Val::Enum(4, vec![]), Self::V454 => Val::Enum(5, vec![]), Self::V439() => Val::Enum(6, vec![]), Self::V177 { long_field_name_that_goes_on_and_on_and_on_and_does_not_stop_here: b0 } => Val::Enum(7, vec![b0.to_val()]), Self::V437(b0, b1) => Val::Enum(8, vec![b0.to_val(), b1.to_val()]), Self::V40 => Val::Enum(9, vec![]), Self::V273 => Val::Enum(10, vec![]), Self::V383 => Val::Enum(11, vec![]), Self::V370 => Val::Enum(12, vec![]), Self::V493 => Val::Enum(13, vec![]), Self::V358 => Val::Enum(14, vec![]), Self::V137 => Val::Enum(15, vec![]), Self::V448(b0, b1) => Val::Enum(16, vec![b0.to_val(), b1.to_val()]), Self::V506(b0, b1) => Val::Enum(17, vec![b0.to_val(), b1.to_val()]), Self::V91 => Val::Enum(18, vec![]), Self::V469 { cur: b0 } => Val::Enum(19, vec![b0.to_val()]), Self::V330 => Val::Enum(20, vec![]), Self::V463 => Val::Enum(21, vec![]), Self::V319 { None: b0 } => Val::Enum(22, vec![b0.to_val()]), Self::V13() => Val::Enum(23, vec![]), Self::V385 => Val::Enum(24, vec![]), Self::V408(b0, b1, b2) => Val::Enum(25, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V505 => Val::Enum(26, vec![]), Self::V50 => Val::Enum(27, vec![]), Self::V150 => Val::Enum(28, vec![]), Self::V129 => Val::Enum(29, vec![]), Self::V39 => Val::Enum(30, vec![]), Self::V115 => Val::Enum(31, vec![]), Self::V121 => Val::Enum(32, vec![]), Self::V315 => Val::Enum(33, vec![]), Self::V236 => Val::Enum(34, vec![]), Self::V94 => Val::Enum(35, vec![]), Self::V434 => Val::Enum(36, vec![]), Self::V165 => Val::Enum(37, vec![]), Self::V415(b0) => Val::Enum(38, vec![b0.to_val()]), Self::V447() => Val::Enum(39, vec![]), Self::V159(b0, b1) => Val::Enum(40, vec![b0.to_val(), b1.to_val()]), Self::V298 => Val::Enum(41, vec![]), Self::V397 => Val::Enum(42, vec![]), Self::V147 => Val::Enum(43, vec![]), Self::V275 => Val::Enum(44, vec![]), Self::V9 => Val::Enum(45, vec![]), Self::V134 => Val::Enum(46, vec![]), Self::V60 => Val::Enum(47, vec![]), Self::V78 => Val::Enum(48, vec![]), Self::V111 => Val::Enum(49, vec![]), Self::V303 => Val::Enum(50, vec![]), Self::V140 => Val::Enum(51, vec![]), Self::V293 => Val::Enum(52, vec![]), Self::V214 => Val::Enum(53, vec![]), Self::V342 => Val::Enum(54, vec![]), Self::V453(b0, b1) => Val::Enum(55, vec![b0.to_val(), b1.to_val()]), Self::V148(b0) => Val::Enum(56, vec![b0.to_val()]), Self::V301 => Val::Enum(57, vec![]), Self::V509 => Val::Enum(58, vec![]), Self::V34(b0, b1) => Val::Enum(59, vec![b0.to_val(), b1.to_val()]), Self::V257 => Val::Enum(60, vec![]), Self::V33 => Val::Enum(61, vec![]), Self::V109 => Val::Enum(62, vec![]), Self::V14 { s: b0 } => Val::Enum(63, vec![b0.to_val()]), Self::V223 => Val::Enum(64, vec![]), Self::V242 => Val::Enum(65, vec![]), Self::V438 => Val::Enum(66, vec![]), Self::V427 => Val::Enum(67, vec![]), Self::V455 => Val::Enum(68, vec![]), Self::V89 => Val::Enum(69, vec![]), Self::V218 => Val::Enum(70, vec![]), Self::V82 {  } => Val::Enum(71, vec![]), Self::V117 => Val::Enum(72, vec![]), Self::V131(b0) => Val::Enum(73, vec![b0.to_val()]), Self::V329 => Val::Enum(74, vec![]), Self::V458 => Val::Enum(75, vec![]), Self::V475 => Val::Enum(76, vec![]), Self::V207 => Val::Enum(77, vec![]), Self::V79 { first: b0, o: b1 } => Val::Enum(78, vec![b0.to_val(), b1.to_val()]), Self::V138 => Val::Enum(79, vec![]), Self::V419 => Val::Enum(80, vec![]), Self::V83 => Val::Enum(81, vec![]), Self::V19 => Val::Enum(82, vec![]), Self::V28 => Val::Enum(83, vec![]), Self::V363 => Val::Enum(84, vec![]), Self::V406 => Val::Enum(85, vec![]), Self::V403 => Val::Enum(86, vec![]), Self::V504 {  } => Val::Enum(87, vec![]), Self::V64 { i26: b0, out: b1, long_field_name_that_goes_on_and_on_and_on_and_does_not_stop_here: b2 } => Val::Enum(88, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V425 => Val::Enum(89, vec![]), Self::V278 => Val::Enum(90, vec![]), Self::V352 => Val::Enum(91, vec![]), Self::V345 => Val::Enum(92, vec![]), Self::V108 => Val::Enum(93, vec![]), Self::V15 => Val::Enum(94, vec![]), Self::V361 => Val::Enum(95, vec![]), Self::V391 => Val::Enum(96, vec![]), Self::V70(b0) => Val::Enum(97, vec![b0.to_val()]), Self::V321 {  } => Val::Enum(98, vec![]), Self::V62 => Val::Enum(99, vec![]), Self::V316(b0, b1, b2, b3, b4) => Val::Enum(100, vec![b0.to_val(), b1.to_val(), b2.to_val(), b3.to_val(), b4.to_val()]), Self::V198 {  } => Val::Enum(101, vec![]), Self::V122 => Val::Enum(102, vec![]), Self::V295 => Val::Enum(103, vec![]), Self::V335 => Val::Enum(104, vec![]), Self::V400 => Val::Enum(105, vec![]), Self::V489 => Val::Enum(106, vec![]), Self::V154 => Val::Enum(107, vec![]), Self::V243(b0, b1) => Val::Enum(108, vec![b0.to_val(), b1.to_val()]), Self::V76 => Val::Enum(109, vec![]), Self::V205 => Val::Enum(110, vec![]), Self::V228 => Val::Enum(111, vec![]), Self::V468(b0) => Val::Enum(112, vec![b0.to_val()]), Self::V271 => Val::Enum(113, vec![]), Self::V204 => Val::Enum(114, vec![]), Self::V344 => Val::Enum(115, vec![]), Self::V362 => Val::Enum(116, vec![]), Self::V187 => Val::Enum(117, vec![]), Self::V36 => Val::Enum(118, vec![]), Self::V327 => Val::Enum(119, vec![]), Self::V225 => Val::Enum(120, vec![]), Self::V488 => Val::Enum(121, vec![]), Self::V127 => Val::Enum(122, vec![]), Self::V451 => Val::Enum(123, vec![]), Self::V462 => Val::Enum(124, vec![]), Self::V231 => Val::Enum(125, vec![]), Self::V73 => Val::Enum(126, vec![]), Self::V69 => Val::Enum(127, vec![]), Self::V421 => Val::Enum(128, vec![]), Self::V331 => Val::Enum(129, vec![]), Self::V328 => Val::Enum(130, vec![]), Self::V106 => Val::Enum(131, vec![]), Self::V27 => Val::Enum(132, vec![]), Self::V250 => Val::Enum(133, vec![]), Self::V313 => Val::Enum(134, vec![]), Self::V246 { _0x: b0, first_field_was_serialized: b1, k9: b2 } => Val::Enum(135, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V389 { u8_: b0, deserialize_ron: b1, o13: b2 } => Val::Enum(136, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V471(b0) => Val::Enum(137, vec![b0.to_val()]), Self::V179 => Val::Enum(138, vec![]), Self::V164 => Val::Enum(139, vec![]), Self::V516 => Val::Enum(140, vec![]), Self::V193 => Val::Enum(141, vec![]), Self::V57 => Val::Enum(142, vec![]), Self::V123 => Val::Enum(143, vec![]), Self::V420 => Val::Enum(144, vec![]), Self::V487 { rename_: b0, unknown: b1, y: b2 } => Val::Enum(145, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V183 => Val::Enum(146, vec![]), Self::V172 {  } => Val::Enum(147, vec![]), Self::V356 => Val::Enum(148, vec![]), Self::V222 => Val::Enum(149, vec![]), Self::V386 => Val::Enum(150, vec![]), Self::V55 => Val::Enum(151, vec![]), Self::V433 => Val::Enum(152, vec![]), Self::V189 => Val::Enum(153, vec![]), Self::V169 => Val::Enum(154, vec![]), Self::V272 => Val::Enum(155, vec![]), Self::V372 => Val::Enum(156, vec![]), Self::V518 => Val::Enum(157, vec![]), Self::V258 => Val::Enum(158, vec![]), Self::V341 => Val::Enum(159, vec![]), Self::V376 { std_: b0 } => Val::Enum(160, vec![b0.to_val()]), Self::V216 => Val::Enum(161, vec![]), Self::V54(b0) => Val::Enum(162, vec![b0.to_val()]), Self::V202 => Val::Enum(163, vec![]), Self::V230 { y25: b0, _s: b1, buf: b2, __y: b3 } => Val::Enum(164, vec![b0.to_val(), b1.to_val(), b2.to_val(), b3.to_val()]), Self::V393 => Val::Enum(165, vec![]), Self::V515 => Val::Enum(166, vec![]), Self::V180(b0, b1, b2, b3, b4) => Val::Enum(167, vec![b0.to_val(), b1.to_val(), b2.to_val(), b3.to_val(), b4.to_val()]), Self::V477 => Val::Enum(168, vec![]), Self::V29(b0) => Val::Enum(169, vec![b0.to_val()]), Self::V101 => Val::Enum(170, vec![]), Self::V484 => Val::Enum(171, vec![]), Self::V483 => Val::Enum(172, vec![]), Self::V398 => Val::Enum(173, vec![]), Self::V220 { e38: b0, d: b1, f95: b2, camelCase: b3 } => Val::Enum(174, vec![b0.to_val(), b1.to_val(), b2.to_val(), b3.to_val()]), Self::V269(b0, b1, b2, b3, b4) => Val::Enum(175, vec![b0.to_val(), b1.to_val(), b2.to_val(), b3.to_val(), b4.to_val()]), Self::V404 => Val::Enum(176, vec![]), Self::V464 { r24: b0, k38: b1, out: b2 } => Val::Enum(177, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V441 => Val::Enum(178, vec![]), Self::V317 => Val::Enum(179, vec![]), Self::V97(b0, b1) => Val::Enum(180, vec![b0.to_val(), b1.to_val()]), Self::V233 { data: b0, col: b1 } => Val::Enum(181, vec![b0.to_val(), b1.to_val()]), Self::V47 => Val::Enum(182, vec![]), Self::V46 => Val::Enum(183, vec![]), Self::V37(b0) => Val::Enum(184, vec![b0.to_val()]), Self::V5 { numbuf: b0 } => Val::Enum(185, vec![b0.to_val()]), Self::V318 => Val::Enum(186, vec![]), Self::V166 => Val::Enum(187, vec![]), Self::V203 => Val::Enum(188, vec![]), Self::V277 { skip: b0 } => Val::Enum(189, vec![b0.to_val()]), Self::V414 => Val::Enum(190, vec![]), Self::V17 => Val::Enum(191, vec![]), Self::V254 => Val::Enum(192, vec![]), Self::V100(b0) => Val::Enum(193, vec![b0.to_val()]), Self::V481 => Val::Enum(194, vec![]), Self::V519 {  } => Val::Enum(195, vec![]), Self::V283 => Val::Enum(196, vec![]), Self::V145 => Val::Enum(197, vec![]), Self::V116 { b62: b0, e1: b1 } => Val::Enum(198, vec![b0.to_val(), b1.to_val()]), Self::V436 { a59: b0 } => Val::Enum(199, vec![b0.to_val()]), Self::V266 { some_: b0, d: b1, y: b2 } => Val::Enum(200, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V478 => Val::Enum(201, vec![]), Self::V26 => Val::Enum(202, vec![]), Self::V431 => Val::Enum(203, vec![]), Self::V146 => Val::Enum(204, vec![]), Self::V161 { f1: b0, r#box: b1 } => Val::Enum(205, vec![b0.to_val(), b1.to_val()]), Self::V232(b0, b1, b2, b3, b4) => Val::Enum(206, vec![b0.to_val(), b1.to_val(), b2.to_val(), b3.to_val(), b4.to_val()]), Self::V126 => Val::Enum(207, vec![]), Self::V153 => Val::Enum(208, vec![]), Self::V118 => Val::Enum(209, vec![]), Self::V201 => Val::Enum(210, vec![]), Self::V413 => Val::Enum(211, vec![]), Self::V197(b0, b1, b2) => Val::Enum(212, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V485 => Val::Enum(213, vec![]), Self::V112 => Val::Enum(214, vec![]), Self::V167 => Val::Enum(215, vec![]), Self::V252 => Val::Enum(216, vec![]), Self::V308 => Val::Enum(217, vec![]), Self::V48 => Val::Enum(218, vec![]), Self::V432 => Val::Enum(219, vec![]), Self::V217 => Val::Enum(220, vec![]), Self::V208 => Val::Enum(221, vec![]), Self::V206 => Val::Enum(222, vec![]), Self::V355(b0) => Val::Enum(223, vec![b0.to_val()]), Self::V476 => Val::Enum(224, vec![]), Self::V178 => Val::Enum(225, vec![]), Self::V473 {  } => Val::Enum(226, vec![]), Self::V22 => Val::Enum(227, vec![]), Self::V139 => Val::Enum(228, vec![]), Self::V21 => Val::Enum(229, vec![]), Self::V394 => Val::Enum(230, vec![]), Self::V248(b0) => Val::Enum(231, vec![b0.to_val()]), Self::V346 => Val::Enum(232, vec![]), Self::V357 => Val::Enum(233, vec![]), Self::V4(b0, b1, b2) => Val::Enum(234, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V409 => Val::Enum(235, vec![]), Self::V149 => Val::Enum(236, vec![]), Self::V511 => Val::Enum(237, vec![]), Self::V490 => Val::Enum(238, vec![]), Self::V30 => Val::Enum(239, vec![]), Self::V299 => Val::Enum(240, vec![]), Self::V422 => Val::Enum(241, vec![]), Self::V285 => Val::Enum(242, vec![]), Self::V289 => Val::Enum(243, vec![]), Self::V107 => Val::Enum(244, vec![]), Self::V311 => Val::Enum(245, vec![]), Self::V497 => Val::Enum(246, vec![]), Self::V32 { Some: b0, None: b1 } => Val::Enum(247, vec![b0.to_val(), b1.to_val()]), Self::V45 => Val::Enum(248, vec![]), Self::V209 => Val::Enum(249, vec![]), Self::V80 => Val::Enum(250, vec![]), Self::V503 => Val::Enum(251, vec![]), Self::V348 => Val::Enum(252, vec![]), Self::V174 => Val::Enum(253, vec![]), Self::V263 => Val::Enum(254, vec![]), Self::V494 => Val::Enum(255, vec![]), Self::V235 => Val::Enum(256, vec![]), Self::V322 { std_: b0, c28: b1, g77: b2 } => Val::Enum(257, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V212(b0, b1) => Val::Enum(258, vec![b0.to_val(), b1.to_val()]), Self::V444 => Val::Enum(259, vec![]), Self::V105 => Val::Enum(260, vec![]), Self::V104 => Val::Enum(261, vec![]), Self::V320 { error: b0, int64: b1, last: b2 } => Val::Enum(262, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V401 => Val::Enum(263, vec![]), Self::V349 => Val::Enum(264, vec![]), Self::V262 => Val::Enum(265, vec![]), Self::V264 => Val::Enum(266, vec![]), Self::V304 => Val::Enum(267, vec![]), Self::V181 => Val::Enum(268, vec![]), Self::V424 => Val::Enum(269, vec![]), Self::V449 => Val::Enum(270, vec![]), Self::V353 => Val::Enum(271, vec![]), Self::V265 => Val::Enum(272, vec![]), Self::V38 => Val::Enum(273, vec![]), Self::V162 => Val::Enum(274, vec![]), Self::V186 => Val::Enum(275, vec![]), Self::V244(b0, b1) => Val::Enum(276, vec![b0.to_val(), b1.to_val()]), Self::V405 => Val::Enum(277, vec![]), Self::V41(b0, b1) => Val::Enum(278, vec![b0.to_val(), b1.to_val()]), Self::V377 => Val::Enum(279, vec![]), Self::V446 => Val::Enum(280, vec![]), Self::V190 => Val::Enum(281, vec![]), Self::V84(b0) => Val::Enum(282, vec![b0.to_val()]), Self::V324 { none_: b0, alloc_: b1 } => Val::Enum(283, vec![b0.to_val(), b1.to_val()]), Self::V42 => Val::Enum(284, vec![]), Self::V312 => Val::Enum(285, vec![]), Self::V314(b0, b1, b2) => Val::Enum(286, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V461 => Val::Enum(287, vec![]), Self::V163 => Val::Enum(288, vec![]), Self::V141 => Val::Enum(289, vec![]), Self::V157 => Val::Enum(290, vec![]), Self::V175 => Val::Enum(291, vec![]), Self::V114 => Val::Enum(292, vec![]), Self::V267 => Val::Enum(293, vec![]), Self::V508 => Val::Enum(294, vec![]), Self::V192 => Val::Enum(295, vec![]), Self::V256 => Val::Enum(296, vec![]), Self::V270 => Val::Enum(297, vec![]), Self::V142(b0, b1) => Val::Enum(298, vec![b0.to_val(), b1.to_val()]), Self::V337 => Val::Enum(299, vec![]), Self::V282 => Val::Enum(300, vec![]), Self::V152 => Val::Enum(301, vec![]), Self::V247 => Val::Enum(302, vec![]), Self::V160(b0, b1) => Val::Enum(303, vec![b0.to_val(), b1.to_val()]), Self::V291 => Val::Enum(304, vec![]), Self::V495 => Val::Enum(305, vec![]), Self::V20 => Val::Enum(306, vec![]), Self::V302(b0, b1, b2, b3, b4) => Val::Enum(307, vec![b0.to_val(), b1.to_val(), b2.to_val(), b3.to_val(), b4.to_val()]), Self::V443 => Val::Enum(308, vec![]), Self::V450 => Val::Enum(309, vec![]), Self::V221 => Val::Enum(310, vec![]), Self::V229 => Val::Enum(311, vec![]), Self::V124 => Val::Enum(312, vec![]), Self::V280(b0, b1) => Val::Enum(313, vec![b0.to_val(), b1.to_val()]), Self::V517 => Val::Enum(314, vec![]), Self::V95 => Val::Enum(315, vec![]), Self::V480 => Val::Enum(316, vec![]), Self::V326 => Val::Enum(317, vec![]), Self::V171 => Val::Enum(318, vec![]), Self::V407 => Val::Enum(319, vec![]), Self::V399 => Val::Enum(320, vec![]), Self::V410(b0) => Val::Enum(321, vec![b0.to_val()]), Self::V367 => Val::Enum(322, vec![]), Self::V3(b0, b1) => Val::Enum(323, vec![b0.to_val(), b1.to_val()]), Self::V253 => Val::Enum(324, vec![]), Self::V245 => Val::Enum(325, vec![]), Self::V238 => Val::Enum(326, vec![]), Self::V191 => Val::Enum(327, vec![]), Self::V510 => Val::Enum(328, vec![]), Self::V381 { line: b0 } => Val::Enum(329, vec![b0.to_val()]), Self::V336 => Val::Enum(330, vec![]), Self::V310 => Val::Enum(331, vec![]), Self::V430 => Val::Enum(332, vec![]), Self::V501 => Val::Enum(333, vec![]), Self::V182 => Val::Enum(334, vec![]), Self::V472 => Val::Enum(335, vec![]), Self::V459 => Val::Enum(336, vec![]), Self::V130 { r#move: b0, x53: b1 } => Val::Enum(337, vec![b0.to_val(), b1.to_val()]), Self::V498 => Val::Enum(338, vec![]), Self::V75(b0, b1, b2) => Val::Enum(339, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V16 => Val::Enum(340, vec![]), Self::V251 => Val::Enum(341, vec![]), Self::V239 => Val::Enum(342, vec![]), Self::V261 => Val::Enum(343, vec![]), Self::V2 => Val::Enum(344, vec![]), Self::V72 => Val::Enum(345, vec![]), Self::V388 => Val::Enum(346, vec![]), Self::V292 => Val::Enum(347, vec![]), Self::V215 => Val::Enum(348, vec![]), Self::V457 => Val::Enum(349, vec![]), Self::V119 => Val::Enum(350, vec![]), Self::V435 => Val::Enum(351, vec![]), Self::V0 { u5: b0, first_field_was_serialized: b1, u75: b2, name: b3 } => Val::Enum(352, vec![b0.to_val(), b1.to_val(), b2.to_val(), b3.to_val()]), Self::V110 => Val::Enum(353, vec![]), Self::V85 => Val::Enum(354, vec![]), Self::V375 => Val::Enum(355, vec![]), Self::V56 => Val::Enum(356, vec![]), Self::V158 => Val::Enum(357, vec![]), Self::V360 => Val::Enum(358, vec![]), Self::V338 => Val::Enum(359, vec![]), Self::V339 => Val::Enum(360, vec![]), Self::V24 => Val::Enum(361, vec![]), Self::V396 => Val::Enum(362, vec![]), Self::V325 => Val::Enum(363, vec![]), Self::V61 => Val::Enum(364, vec![]), Self::V365 => Val::Enum(365, vec![]), Self::V378 => Val::Enum(366, vec![]), Self::V412(b0) => Val::Enum(367, vec![b0.to_val()]), Self::V402(b0) => Val::Enum(368, vec![b0.to_val()]), Self::V288 => Val::Enum(369, vec![]), Self::V11 { last: b0 } => Val::Enum(370, vec![b0.to_val()]), Self::V23 => Val::Enum(371, vec![]), Self::V90 { name: b0 } => Val::Enum(372, vec![b0.to_val()]), Self::V368 { i23: b0 } => Val::Enum(373, vec![b0.to_val()]), Self::V416 => Val::Enum(374, vec![]), Self::V305 => Val::Enum(375, vec![]), Self::V306(b0, b1) => Val::Enum(376, vec![b0.to_val(), b1.to_val()]), Self::V276(b0) => Val::Enum(377, vec![b0.to_val()]), Self::V88 => Val::Enum(378, vec![]), Self::V281 => Val::Enum(379, vec![]), Self::V334 => Val::Enum(380, vec![]), Self::V213 => Val::Enum(381, vec![]), Self::V10 => Val::Enum(382, vec![]), Self::V347 => Val::Enum(383, vec![]), Self::V323 => Val::Enum(384, vec![]), Self::V156 => Val::Enum(385, vec![]), Self::V53 => Val::Enum(386, vec![]), Self::V284(b0, b1) => Val::Enum(387, vec![b0.to_val(), b1.to_val()]), Self::V350(b0, b1) => Val::Enum(388, vec![b0.to_val(), b1.to_val()]), Self::V12 => Val::Enum(389, vec![]), Self::V300 => Val::Enum(390, vec![]), Self::V426 => Val::Enum(391, vec![]), Self::V96 { cur: b0, r1: b1 } => Val::Enum(392, vec![b0.to_val(), b1.to_val()]), Self::V58 => Val::Enum(393, vec![]), Self::V224 => Val::Enum(394, vec![]), Self::V354 => Val::Enum(395, vec![]), Self::V184 => Val::Enum(396, vec![]), Self::V460 => Val::Enum(397, vec![]), Self::V268(b0, b1) => Val::Enum(398, vec![b0.to_val(), b1.to_val()]), Self::V98 => Val::Enum(399, vec![]), Self::V6 { y: b0 } => Val::Enum(400, vec![b0.to_val()]), Self::V333 => Val::Enum(401, vec![]), Self::V392 => Val::Enum(402, vec![]), Self::V417 => Val::Enum(403, vec![]), Self::V418 => Val::Enum(404, vec![]), Self::V226(b0) => Val::Enum(405, vec![b0.to_val()]), Self::V296 => Val::Enum(406, vec![]), Self::V51 => Val::Enum(407, vec![]), Self::V364 => Val::Enum(408, vec![]), Self::V351(b0) => Val::Enum(409, vec![b0.to_val()]), Self::V445 => Val::Enum(410, vec![]), Self::V379() => Val::Enum(411, vec![]), Self::V373 => Val::Enum(412, vec![]), Self::V294(b0, b1, b2, b3, b4) => Val::Enum(413, vec![b0.to_val(), b1.to_val(), b2.to_val(), b3.to_val(), b4.to_val()]), Self::V77 => Val::Enum(414, vec![]), Self::V151 => Val::Enum(415, vec![]), Self::V502 => Val::Enum(416, vec![]), Self::V507 => Val::Enum(417, vec![]), Self::V43 => Val::Enum(418, vec![]), Self::V68 => Val::Enum(419, vec![]), Self::V309 { b75: b0, rename_: b1 } => Val::Enum(420, vec![b0.to_val(), b1.to_val()]), Self::V382 => Val::Enum(421, vec![]), Self::V44 => Val::Enum(422, vec![]), Self::V194 => Val::Enum(423, vec![]), Self::V74 => Val::Enum(424, vec![]), Self::V199 => Val::Enum(425, vec![]), Self::V8 => Val::Enum(426, vec![]), Self::V492 => Val::Enum(427, vec![]), Self::V237 => Val::Enum(428, vec![]), Self::V241 { Option_: b0, h18: b1, m32: b2, k83: b3 } => Val::Enum(429, vec![b0.to_val(), b1.to_val(), b2.to_val(), b3.to_val()]), Self::V173 => Val::Enum(430, vec![]), Self::V66 => Val::Enum(431, vec![]), Self::V440 => Val::Enum(432, vec![]), Self::V387 => Val::Enum(433, vec![]), Self::V479 => Val::Enum(434, vec![]), Self::V25 => Val::Enum(435, vec![]), Self::V259(b0) => Val::Enum(436, vec![b0.to_val()]), Self::V286 => Val::Enum(437, vec![]), Self::V67 => Val::Enum(438, vec![]), Self::V482 => Val::Enum(439, vec![]), Self::V71 => Val::Enum(440, vec![]), Self::V63 => Val::Enum(441, vec![]), Self::V1 => Val::Enum(442, vec![]), Self::V366 => Val::Enum(443, vec![]), Self::V514 {  } => Val::Enum(444, vec![]), Self::V170 => Val::Enum(445, vec![]), Self::V81 => Val::Enum(446, vec![]), Self::V442 => Val::Enum(447, vec![]), Self::V466 => Val::Enum(448, vec![]), Self::V113 => Val::Enum(449, vec![]), Self::V65 => Val::Enum(450, vec![]), Self::V369 => Val::Enum(451, vec![]), Self::V279 => Val::Enum(452, vec![]), Self::V128 => Val::Enum(453, vec![]), Self::V185 => Val::Enum(454, vec![]), Self::V470 { c: b0, y90: b1, unknown: b2, default: b3 } => Val::Enum(455, vec![b0.to_val(), b1.to_val(), b2.to_val(), b3.to_val()]), Self::V452 { r1: b0, nul: b1 } => Val::Enum(456, vec![b0.to_val(), b1.to_val()]), Self::V87 => Val::Enum(457, vec![]), Self::V465 => Val::Enum(458, vec![]), Self::V428 => Val::Enum(459, vec![]), Self::V395 => Val::Enum(460, vec![]), Self::V423 { x56: b0 } => Val::Enum(461, vec![b0.to_val()]), Self::V196(b0) => Val::Enum(462, vec![b0.to_val()]), Self::V168 => Val::Enum(463, vec![]), Self::V103 => Val::Enum(464, vec![]), Self::V474 => Val::Enum(465, vec![]), Self::V380 { r92: b0, l25: b1, a__b: b2 } => Val::Enum(466, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V456 => Val::Enum(467, vec![]), Self::V240 => Val::Enum(468, vec![]), Self::V144 => Val::Enum(469, vec![]), Self::V227 => Val::Enum(470, vec![]), Self::V491 => Val::Enum(471, vec![]), Self::V287(b0, b1) => Val::Enum(472, vec![b0.to_val(), b1.to_val()]), Self::V35 => Val::Enum(473, vec![]), Self::V486 => Val::Enum(474, vec![]), Self::V332 { f56: b0 } => Val::Enum(475, vec![b0.to_val()]), Self::V384 => Val::Enum(476, vec![]), Self::V290 => Val::Enum(477, vec![]), Self::V86 => Val::Enum(478, vec![]), Self::V195 => Val::Enum(479, vec![]), Self::V500(b0) => Val::Enum(480, vec![b0.to_val()]), Self::V219 => Val::Enum(481, vec![]), Self::V102 { rename_: b0, strbuf: b1 } => Val::Enum(482, vec![b0.to_val(), b1.to_val()]), Self::V135 => Val::Enum(483, vec![]), Self::V307 { f: b0 } => Val::Enum(484, vec![b0.to_val()]), Self::V274 => Val::Enum(485, vec![]), Self::V188 => Val::Enum(486, vec![]), Self::V496 => Val::Enum(487, vec![]), Self::V176 => Val::Enum(488, vec![]), Self::V467 => Val::Enum(489, vec![]), Self::V31(b0, b1) => Val::Enum(490, vec![b0.to_val(), b1.to_val()]), Self::V429 { p37: b0, inf: b1 } => Val::Enum(491, vec![b0.to_val(), b1.to_val()]), Self::V49 => Val::Enum(492, vec![]), Self::V499 { c77: b0, m63: b1, id: b2, b78: b3 } => Val::Enum(493, vec![b0.to_val(), b1.to_val(), b2.to_val(), b3.to_val()]), Self::V210 => Val::Enum(494, vec![]), Self::V343 => Val::Enum(495, vec![]), Self::V512 => Val::Enum(496, vec![]), Self::V59 => Val::Enum(497, vec![]), Self::V255 { e80: b0, first_field_was_serialized: b1, NULL: b2 } => Val::Enum(498, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V143 => Val::Enum(499, vec![]), Self::V371(b0, b1) => Val::Enum(500, vec![b0.to_val(), b1.to_val()]), Self::V390 { c43: b0, d90: b1, g94: b2, j26: b3 } => Val::Enum(501, vec![b0.to_val(), b1.to_val(), b2.to_val(), b3.to_val()]), Self::V133 => Val::Enum(502, vec![]), Self::V7 => Val::Enum(503, vec![]), Self::V18 => Val::Enum(504, vec![]), Self::V297 => Val::Enum(505, vec![]), Self::V200 => Val::Enum(506, vec![]), Self::V260 => Val::Enum(507, vec![]), Self::V125 => Val::Enum(508, vec![]), Self::V136 => Val::Enum(509, vec![]), Self::V120 {  } => Val::Enum(510, vec![]), Self::V359 => Val::Enum(511, vec![]), Self::V249 => Val::Enum(512, vec![]), Self::V132 => Val::Enum(513, vec![]), Self::V340() => Val::Enum(514, vec![]), Self::V92 => Val::Enum(515, vec![]), Self::V234 => Val::Enum(516, vec![]), Self::V374 => Val::Enum(517, vec![]), Self::V93 => Val::Enum(518, vec![]), Self::V99 => Val::Enum(519, vec![]), } }
}
fn dflt_102_0() -> std::collections::HashMap<i8, [f64; 2]> { <std::collections::HashMap<i8, [f64; 2]> as Subject>::from_val(&vcore::gen::sample::<std::collections::HashMap<i8, [f64; 2]>>(463933517)) }
fn dflt_102_1() -> u16 { <u16 as Subject>::from_val(&vcore::gen::sample::<u16>(3839899)) }
fn dflt_102_2() -> Kb<{ 1 > 2 }> { <Kb<{ 1 > 2 }> as Subject>::from_val(&vcore::gen::sample::<Kb<{ 1 > 2 }>>(80558422)) }
fn dflt_102_3() -> std::collections::BTreeSet<Vec<i8>> { <std::collections::BTreeSet<Vec<i8>> as Subject>::from_val(&vcore::gen::sample::<std::collections::BTreeSet<Vec<i8>>>(426347502)) }

/** block docs */
#[derive(DeBin, SerBin, SerJson, DeJson, DeRon, SerRon, Default)]
pub struct P103  {
    pub msg: Option<Vec<P103>>,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
#[nserde(skip)]
#[doc = "attr docs"]
pub e: ::std::option::Option<u8>,
    #[cfg(all())]
pub(crate) some: BTreeMap<String, P91<u8, i32>>,
    // plain comment
#[nserde(default_with = "dflt_103_0")]
pub(super) some_: u64,
}
impl Subject for P103  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P103", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "msg", json: "msg", ron: "msg", ty: <Option<Vec<P103>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<P103>> as Default>::default().to_val()) },
        FieldDef { name: "e", json: "e", ron: "e", ty: <::std::option::Option<u8> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <::std::option::Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "some", json: "some", ron: "some", ty: <BTreeMap<String, P91<u8, i32>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, P91<u8, i32>> as Default>::default().to_val()) },
        FieldDef { name: "some_", json: "some_", ron: "some_", ty: <u64 as Subject>::ty, skip: false, dflt: Dflt::Value(|| dflt_103_0().to_val()), is_opt: false, null_none: false, type_default: Some(|| <u64 as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P103 { msg: Subject::from_val(&x[0]), e: Subject::from_val(&x[1]), some: Subject::from_val(&x[2]), some_: Subject::from_val(&x[3]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.msg.to_val(), self.e.to_val(), self.some.to_val(), self.some_.to_val()]) }
}
fn dflt_103_0() -> u64 { <u64 as Subject>::from_val(&vcore::gen::sample::<u64>(872948660)) }

#[derive(DeJson)]
#[derive(SerJson)]
#[allow(unused, non_snake_case)]
pub struct P104(/** block docs */
String, P100, #[allow(dead_code)]
pub(super) P93) ;
impl Subject for P104  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P104", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "", json: "", ron: "", ty: <P100 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <P100 as Default>::default().to_val()) },
        FieldDef { name: "", json: "", ron: "", ty: <P93 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P104(Subject::from_val(&x[0]), Subject::from_val(&x[1]), Subject::from_val(&x[2])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val(), self.1.to_val(), self.2.to_val()]) }
}


#[derive(SerRon, DeJson, SerBin, DeBin, DeRon, SerJson)]
pub struct P105<K: core::fmt::Debug, const Q: i32 = -0x10> where K: Clone, [K; 2]: Clone, [K; 2]: Clone, {
    #[doc = "attr docs"]
pub(crate) label: K,
}
impl<K: core::fmt::Debug + Clone + Clone + Subject, const Q: i32> Subject for P105<K, Q>  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P105", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "label", json: "label", ron: "label", ty: <K as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P105 { label: Subject::from_val(&x[0]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.label.to_val()]) }
}


// plain comment
#[derive(SerBin, DeRon, DeBin, DeJson, SerRon, Default, SerJson)]
pub(in crate) struct P106(#[cfg(all())]
pub(crate) ::std::option::Option<bool>, pub(super) u64,) ;
impl Subject for P106  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P106", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <::std::option::Option<bool> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <::std::option::Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "", json: "", ron: "", ty: <u64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u64 as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P106(Subject::from_val(&x[0]), Subject::from_val(&x[1])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val(), self.1.to_val()]) }
}


#[derive(PartialEq, DeRon, SerJson, SerRon, Default, Eq, PartialOrd, Ord, SerBin, DeBin, Hash, DeJson)]
pub struct P107(// plain comment
pub(super) u16) ;
impl Subject for P107  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P107", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <u16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u16 as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P107(Subject::from_val(&x[0])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val()]) }
}


// plain comment
#[derive(SerJson, DeRon, Default, DeJson, SerBin, SerRon, DeBin)]
pub struct P108(/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
pub(super) std::vec::Vec<std::option::Option<u32>>, #[allow(dead_code)]
pub(super) (Duration, u8, BTreeSet<String>, (usize, u32,),)) ;
impl Subject for P108  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P108", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <std::vec::Vec<std::option::Option<u32>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::vec::Vec<std::option::Option<u32>> as Default>::default().to_val()) },
        FieldDef { name: "", json: "", ron: "", ty: <(Duration, u8, BTreeSet<String>, (usize, u32,),) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(Duration, u8, BTreeSet<String>, (usize, u32,),) as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P108(Subject::from_val(&x[0]), Subject::from_val(&x[1])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val(), self.1.to_val()]) }
}


#[derive(DeBin, DeRon, SerBin, SerJson, Default, DeJson, SerRon)]
// plain comment
#[allow(clippy::all)] pub enum P109  {
    #[allow(dead_code)]
#[nserde(rename = r#"\"#)]
#[doc = "attr docs"]
#[default]
Struct,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
lower,
}
impl Subject for P109 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P109", variants: &[
        VariantDef { name: "Struct", json: "\\", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "lower", json: "lower", kind: Kind::Unit, fields: &[] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::Struct, 1 => Self::lower, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::Struct => Val::Enum(0, vec![]), Self::lower => Val::Enum(1, vec![]), } }
}


#[derive(Hash, SerJson, SerRon, PartialOrd, Ord, DeJson, DeRon, Eq, SerBin, PartialEq, DeBin)]
#[cfg(all())]
#[nserde(crate = "vcore::reexp",)]
#[allow(clippy::all)] pub enum P110  {
    #[nserde(rename = "a b")]
#[allow(unused, non_snake_case)]
Qux,
    #[allow(dead_code)]
#[nserde(rename = r"e",)]
#[cfg(all())]
North,
    South,
    #[cfg(all())]
lower,
    /** block docs */
West,
    D,
    #[cfg(all())]
VeryLongVariantNameThatGoesOnAndOn,
    Foo,
    Third,
    r#return,
    F,
    none
}
impl Subject for P110 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P110", variants: &[
        VariantDef { name: "Qux", json: "a b", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "North", json: "e", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "South", json: "South", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "lower", json: "lower", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "West", json: "West", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "D", json: "D", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "VeryLongVariantNameThatGoesOnAndOn", json: "VeryLongVariantNameThatGoesOnAndOn", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Foo", json: "Foo", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Third", json: "Third", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "return", json: "return", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "F", json: "F", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "none", json: "none", kind: Kind::Unit, fields: &[] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::Qux, 1 => Self::North, 2 => Self::South, 3 => Self::lower, 4 => Self::West, 5 => Self::D, 6 => Self::VeryLongVariantNameThatGoesOnAndOn, 7 => Self::Foo, 8 => Self::Third, 9 => Self::r#return, 10 => Self::F, 11 => Self::none, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::Qux => Val::Enum(0, vec![]), Self::North => Val::Enum(1, vec![]), Self::South => Val::Enum(2, vec![]), Self::lower => Val::Enum(3, vec![]), Self::West => Val::Enum(4, vec![]), Self::D => Val::Enum(5, vec![]), Self::VeryLongVariantNameThatGoesOnAndOn => Val::Enum(6, vec![]), Self::Foo => Val::Enum(7, vec![]), Self::Third => Val::Enum(8, vec![]), Self::r#return => Val::Enum(9, vec![]), Self::F => Val::Enum(10, vec![]), Self::none => Val::Enum(11, vec![]), } }
}


#[derive(Hash, DeRon, Ord, PartialEq, SerJson, SerRon, PartialOrd, SerBin, DeBin, DeJson, Eq)]
pub struct P111  {
    #[allow(dead_code)]
o2: usize
}
impl Subject for P111  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P111", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "o2", json: "o2", ron: "o2", ty: <usize as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <usize as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P111 { o2: Subject::from_val(&x[0]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.o2.to_val()]) }
}


#[derive(SerJson)]
#[derive(DeJson)]
/** block docs */
#[allow(clippy::all)] pub enum P112  {
    /** block docs */
e,
    B(Vec<bool>,),
    G,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
#[nserde(rename = r#"a "#)]
#[allow(unused, non_snake_case)]
Struct()
}
impl Subject for P112 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P112", variants: &[
        VariantDef { name: "e", json: "e", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "B", json: "B", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <Vec<bool> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<bool> as Default>::default().to_val()) }] },
        VariantDef { name: "G", json: "G", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Struct", json: "a ", kind: Kind::Tuple, fields: &[] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::e, 1 => Self::B(Subject::from_val(&x_[0])), 2 => Self::G, 3 => Self::Struct(), _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::e => Val::Enum(0, vec![]), Self::B(b0) => Val::Enum(1, vec![b0.to_val()]), Self::G => Val::Enum(2, vec![]), Self::Struct() => Val::Enum(3, vec![]), } }
}

#[derive(SerJson)]
#[doc = "attr docs"]
pub enum P112Lent<'a> where 'a: 'a, 'a: 'a + 'a {
/** block docs */
e,
#[allow(unused, non_snake_case)]
B(#[cfg(all())]
&'a Vec<bool>),
G,
#[nserde(rename = r#"a "#)]
Struct()
}
pub struct P112View(P112);
impl Subject for P112View { const TY: TyRef = <P112 as Subject>::TY; fn from_val(v: &Val) -> Self { P112View(Subject::from_val(v)) } fn to_val(&self) -> Val { self.0.to_val() } }
impl SerJson for P112View { fn ser_json(&self, d: usize, s: &mut nanoserde::SerJsonState) { match &self.0 { P112::e => P112Lent::e.ser_json(d, s), P112::B(x0) => P112Lent::B(x0).ser_json(d, s), P112::G => P112Lent::G.ser_json(d, s), P112::Struct() => P112Lent::Struct().ser_json(d, s), } } }
impl DeJson for P112View { fn de_json(s: &mut nanoserde::DeJsonState, i: &mut core::str::Chars) -> Result<Self, nanoserde::DeJsonErr> { Ok(P112View(DeJson::de_json(s, i)?)) } }

#[derive(DeJson, SerRon, DeRon, SerBin, SerJson, DeBin)]
pub struct P113  {
    /** block docs */
pub t83: P109,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
pub b75: String,
    /** block docs */
e35: P93,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
pub r#in: P105<bool, -1>,
    #[nserde(rename = "snake_case_name")]
pub long_field_name_that_goes_on_and_on_and_on_and_does_not_stop_here: P93,
}
impl Subject for P113  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P113", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "t83", json: "t83", ron: "t83", ty: <P109 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <P109 as Default>::default().to_val()) },
        FieldDef { name: "b75", json: "b75", ron: "b75", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "e35", json: "e35", ron: "e35", ty: <P93 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "r#in", json: "in", ron: "in", ty: <P105<bool, -1> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "long_field_name_that_goes_on_and_on_and_on_and_does_not_stop_here", json: "snake_case_name", ron: "snake_case_name", ty: <P93 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P113 { t83: Subject::from_val(&x[0]), b75: Subject::from_val(&x[1]), e35: Subject::from_val(&x[2]), r#in: Subject::from_val(&x[3]), long_field_name_that_goes_on_and_on_and_on_and_does_not_stop_here: Subject::from_val(&x[4]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.t83.to_val(), self.b75.to_val(), self.e35.to_val(), self.r#in.to_val(), self.long_field_name_that_goes_on_and_on_and_on_and_does_not_stop_here.to_val()]) }
}


#[derive(SerRon, DeRon, SerJson, DeBin, SerBin, DeJson)]
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
#[allow(clippy::all)] pub enum P114  {
    #[allow(dead_code)]
D,
    #[allow(dead_code)]
Foo,
    Box,
    #[allow(dead_code)]
#[nserde(rename = r#"Bar"#,)]
/** block docs */
Ok,
    #[allow(unused, non_snake_case)]
Unit {
#[nserde(rename = "y", default = 0x1f)]
#[allow(dead_code)]
none_: usize,
r40: Option<P96<(u8, String), 3>>,
z83: BTreeSet<String>
}
}
impl Subject for P114 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P114", variants: &[
        VariantDef { name: "D", json: "D", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Foo", json: "Foo", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Box", json: "Box", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Ok", json: "Bar", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Unit", json: "Unit", kind: Kind::Named, fields: &[FieldDef { name: "none_", json: "y", ron: "y", ty: <usize as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: usize = 0x1f; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <usize as Default>::default().to_val()) }, FieldDef { name: "r40", json: "r40", ron: "r40", ty: <Option<P96<(u8, String), 3>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<P96<(u8, String), 3>> as Default>::default().to_val()) }, FieldDef { name: "z83", json: "z83", ron: "z83", ty: <BTreeSet<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeSet<String> as Default>::default().to_val()) }] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::D, 1 => Self::Foo, 2 => Self::Box, 3 => Self::Ok, 4 => Self::Unit { none_: Subject::from_val(&x_[0]), r40: Subject::from_val(&x_[1]), z83: Subject::from_val(&x_[2]) }, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::D => Val::Enum(0, vec![]), Self::Foo => Val::Enum(1, vec![]), Self::Box => Val::Enum(2, vec![]), Self::Ok => Val::Enum(3, vec![]), Self::Unit { none_: b0, r40: b1, z83: b2 } => Val::Enum(4, vec![b0.to_val(), b1.to_val(), b2.to_val()]), } }
}


#[derive(DeRon, SerRon, SerJson, DeJson)]
#[derive(DeBin, SerBin, Default)]
#[allow(clippy::all)] pub enum P115  {
    #[doc = "attr docs"]
#[default]
E1,
    #[nserde(rename = "\\",)]
// plain comment
Foo,
    Some_ {

},
    #[allow(dead_code)]
Ok_(P106, Duration),
    #[allow(dead_code)]
D(Vec<Box<u64>>, /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
P106),
    Vec,
    X3 {
#[doc = "attr docs"]
long_field_name_that_goes_on_and_on_and_on_and_does_not_stop_here: P105<bool, -1>
},
    #[cfg(all())]
None_(),
    Default(std::option::Option<Box<Duration>>, Vec<f32>),
    Self_ {
#[allow(dead_code)]
s4: i8,
h16: u64
},
    X1 {
#[nserde(rename = "u8_",)]
alloc_: i64,
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
#[nserde(serialize_none_as_null)]
// plain comment
inf: ::std::option::Option<u16>
},
    // plain comment
camelCase(Kb<true>, P105<bool, -1>)
}
impl Subject for P115 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P115", variants: &[
        VariantDef { name: "E1", json: "E1", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Foo", json: "\\", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Some_", json: "Some_", kind: Kind::Named, fields: &[] },
        VariantDef { name: "Ok_", json: "Ok_", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <P106 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <P106 as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <Duration as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Duration as Default>::default().to_val()) }] },
        VariantDef { name: "D", json: "D", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <Vec<Box<u64>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<Box<u64>> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <P106 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <P106 as Default>::default().to_val()) }] },
        VariantDef { name: "Vec", json: "Vec", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "X3", json: "X3", kind: Kind::Named, fields: &[FieldDef { name: "long_field_name_that_goes_on_and_on_and_on_and_does_not_stop_here", json: "long_field_name_that_goes_on_and_on_and_on_and_does_not_stop_here", ron: "long_field_name_that_goes_on_and_on_and_on_and_does_not_stop_here", ty: <P105<bool, -1> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] },
        VariantDef { name: "None_", json: "None_", kind: Kind::Tuple, fields: &[] },
        VariantDef { name: "Default", json: "Default", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <std::option::Option<Box<Duration>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <std::option::Option<Box<Duration>> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <Vec<f32> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<f32> as Default>::default().to_val()) }] },
        VariantDef { name: "Self_", json: "Self_", kind: Kind::Named, fields: &[FieldDef { name: "s4", json: "s4", ron: "s4", ty: <i8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i8 as Default>::default().to_val()) }, FieldDef { name: "h16", json: "h16", ron: "h16", ty: <u64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u64 as Default>::default().to_val()) }] },
        VariantDef { name: "X1", json: "X1", kind: Kind::Named, fields: &[FieldDef { name: "alloc_", json: "u8_", ron: "u8_", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }, FieldDef { name: "inf", json: "inf", ron: "inf", ty: <::std::option::Option<u16> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <::std::option::Option<u16> as Default>::default().to_val()) }] },
        VariantDef { name: "camelCase", json: "camelCase", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <Kb<true> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Kb<true> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <P105<bool, -1> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::E1, 1 => Self::Foo, 2 => Self::Some_ {  }, 3 => Self::Ok_(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), 4 => Self::D(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), 5 => Self::Vec, 6 => Self::X3 { long_field_name_that_goes_on_and_on_and_on_and_does_not_stop_here: Subject::from_val(&x_[0]) }, 7 => Self::None_(), 8 => Self::Default(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), 9 => Self::Self_ { s4: Subject::from_val(&x_[0]), h16: Subject::from_val(&x_[1]) }, 10 => Self::X1 { alloc_: Subject::from_val(&x_[0]), inf: Subject::from_val(&x_[1]) }, 11 => Self::camelCase(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::E1 => Val::Enum(0, vec![]), Self::Foo => Val::Enum(1, vec![]), Self::Some_ {  } => Val::Enum(2, vec![]), Self::Ok_(b0, b1) => Val::Enum(3, vec![b0.to_val(), b1.to_val()]), Self::D(b0, b1) => Val::Enum(4, vec![b0.to_val(), b1.to_val()]), Self::Vec => Val::Enum(5, vec![]), Self::X3 { long_field_name_that_goes_on_and_on_and_on_and_does_not_stop_here: b0 } => Val::Enum(6, vec![b0.to_val()]), Self::None_() => Val::Enum(7, vec![]), Self::Default(b0, b1) => Val::Enum(8, vec![b0.to_val(), b1.to_val()]), Self::Self_ { s4: b0, h16: b1 } => Val::Enum(9, vec![b0.to_val(), b1.to_val()]), Self::X1 { alloc_: b0, inf: b1 } => Val::Enum(10, vec![b0.to_val(), b1.to_val()]), Self::camelCase(b0, b1) => Val::Enum(11, vec![b0.to_val(), b1.to_val()]), } }
}


#[derive(Default, DeRon, SerRon)]
#[derive(SerJson, DeJson)]
#[nserde(crate = "::nanoserde", transparent)]
pub struct P116(/** block docs */
f32,) ;
impl Subject for P116  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P116", kind: Kind::Tuple, transparent: true, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P116(Subject::from_val(&x[0])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val()]) }
}

#[derive(SerJson, SerRon)]
#[nserde(transparent, crate = "::nanoserde")]
pub struct P116Lent<'a, F0: 'a>(#[cfg(all())]
&'a F0) ;
pub struct P116View(P116);
impl Subject for P116View { const TY: TyRef = <P116 as Subject>::TY; fn from_val(v: &Val) -> Self { P116View(Subject::from_val(v)) } fn to_val(&self) -> Val { self.0.to_val() } }
impl SerJson for P116View { fn ser_json(&self, d: usize, s: &mut nanoserde::SerJsonState) { match &self.0 { P116(x0) => P116Lent(x0).ser_json(d, s), } } }
impl DeJson for P116View { fn de_json(s: &mut nanoserde::DeJsonState, i: &mut core::str::Chars) -> Result<Self, nanoserde::DeJsonErr> { Ok(P116View(DeJson::de_json(s, i)?)) } }
impl SerRon for P116View { fn ser_ron(&self, d: usize, s: &mut nanoserde::SerRonState) { match &self.0 { P116(x0) => P116Lent(x0).ser_ron(d, s), } } }
impl DeRon for P116View { fn de_ron(s: &mut nanoserde::DeRonState, i: &mut core::str::Chars) -> Result<Self, nanoserde::DeRonErr> { Ok(P116View(DeRon::de_ron(s, i)?)) } }

#[derive(SerRon, SerBin, DeRon, DeBin)]
#[allow(dead_code)]
#[nserde(crate = "self::reexp")]
#[allow(dead_code)]
#[allow(clippy::all)] pub(in crate) enum P117<U: core::fmt::Debug, A1: self::WithDeBin> where U: DeJsonOwned, Option<U>: Clone, {
    String(A1, Vec<A1>),
    #[doc = "attr docs"]
none {
#[allow(dead_code)]
g14: U
},
}
impl<U: core::fmt::Debug + DeJsonOwned + Clone + Subject, A1: self::WithDeBin + Subject> Subject for P117<U, A1> {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P117", variants: &[
        VariantDef { name: "String", json: "String", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <A1 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "", json: "", ron: "", ty: <Vec<A1> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<A1> as Default>::default().to_val()) }] },
        VariantDef { name: "none", json: "none", kind: Kind::Named, fields: &[FieldDef { name: "g14", json: "g14", ron: "g14", ty: <U as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::String(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), 1 => Self::none { g14: Subject::from_val(&x_[0]) }, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::String(b0, b1) => Val::Enum(0, vec![b0.to_val(), b1.to_val()]), Self::none { g14: b0 } => Val::Enum(1, vec![b0.to_val()]), } }
}


#[derive(SerJson)]
#[derive(DeJson)]
pub struct P118(pub(crate) P112, #[cfg(all())]
pub(super) Option<i8>) ;
impl Subject for P118  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P118", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <P112 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "", json: "", ron: "", ty: <Option<i8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<i8> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P118(Subject::from_val(&x[0]), Subject::from_val(&x[1])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val(), self.1.to_val()]) }
}

#[derive(SerJson)]
pub struct P118Lent<'a>(#[allow(unused, non_snake_case)]
&'a P112, #[allow(dead_code)]
&'a Option<i8>) ;
pub struct P118View(P118);
impl Subject for P118View { const TY: TyRef = <P118 as Subject>::TY; fn from_val(v: &Val) -> Self { P118View(Subject::from_val(v)) } fn to_val(&self) -> Val { self.0.to_val() } }
impl SerJson for P118View { fn ser_json(&self, d: usize, s: &mut nanoserde::SerJsonState) { match &self.0 { P118(x0, x1) => P118Lent(x0, x1).ser_json(d, s), } } }
impl DeJson for P118View { fn de_json(s: &mut nanoserde::DeJsonState, i: &mut core::str::Chars) -> Result<Self, nanoserde::DeJsonErr> { Ok(P118View(DeJson::de_json(s, i)?)) } }

#[derive(nanoserde::SerRon, nanoserde::DeRon, nanoserde::DeBin, nanoserde::SerJson, nanoserde::SerBin, nanoserde::DeJson)]
#[allow(clippy::all)] pub enum P119<T: SerJsonX + Clone> where T: SerBinary + Clone, {
    /** block docs */
Ok,
    #[doc = "attr docs"]
Green {
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
strbuf: Vec<Option<i32>>,
#[nserde(rename = r#"y"#)]
#[allow(unused, non_snake_case)]
ok_: LinkedList<<u8 as Assoc>::Ty>,
r#loop: P106,
},
    // plain comment
#[nserde(rename = "a\"b",)]
#[allow(dead_code)]
Struct {
/** block docs */
u9: Option<T>
},
    // plain comment
North {

},
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
VeryLongVariantNameThatGoesOnAndOn,
}
impl<T: SerJsonX + Clone + SerBinary + Clone + Subject> Subject for P119<T> {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P119", variants: &[
        VariantDef { name: "Ok", json: "Ok", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Green", json: "Green", kind: Kind::Named, fields: &[FieldDef { name: "strbuf", json: "strbuf", ron: "strbuf", ty: <Vec<Option<i32>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<Option<i32>> as Default>::default().to_val()) }, FieldDef { name: "ok_", json: "y", ron: "y", ty: <LinkedList<<u8 as Assoc>::Ty> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <LinkedList<<u8 as Assoc>::Ty> as Default>::default().to_val()) }, FieldDef { name: "r#loop", json: "loop", ron: "loop", ty: <P106 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <P106 as Default>::default().to_val()) }] },
        VariantDef { name: "Struct", json: "a\"b", kind: Kind::Named, fields: &[FieldDef { name: "u9", json: "u9", ron: "u9", ty: <Option<T> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<T> as Default>::default().to_val()) }] },
        VariantDef { name: "North", json: "North", kind: Kind::Named, fields: &[] },
        VariantDef { name: "VeryLongVariantNameThatGoesOnAndOn", json: "VeryLongVariantNameThatGoesOnAndOn", kind: Kind::Unit, fields: &[] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::Ok, 1 => Self::Green { strbuf: Subject::from_val(&x_[0]), ok_: Subject::from_val(&x_[1]), r#loop: Subject::from_val(&x_[2]) }, 2 => Self::Struct { u9: Subject::from_val(&x_[0]) }, 3 => Self::North {  }, 4 => Self::VeryLongVariantNameThatGoesOnAndOn, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::Ok => Val::Enum(0, vec![]), Self::Green { strbuf: b0, ok_: b1, r#loop: b2 } => Val::Enum(1, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::Struct { u9: b0 } => Val::Enum(2, vec![b0.to_val()]), Self::North {  } => Val::Enum(3, vec![]), Self::VeryLongVariantNameThatGoesOnAndOn => Val::Enum(4, vec![]), } }
}


#[derive(SerBin, DeBin)]
pub struct P120<K: Known<Ty = u8>, U, const N: usize> where U: Clone, std::collections::BTreeMap<u8, Vec<U>>: Clone, Option<U>: Clone {
    #[doc = "attr docs"]
pub(crate) skip: [u8; N],
    pub(crate) o: std::collections::HashMap<i8, [i16; 2]>,
    pub kind: K,
    #[allow(dead_code)]
pub first_field_was_serialized: Vec<U>
}
impl<K: Known<Ty = u8> + Subject, U: Clone + Clone + Subject, const N: usize> Subject for P120<K, U, N>  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P120", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "skip", json: "skip", ron: "skip", ty: <[u8; N] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "o", json: "o", ron: "o", ty: <std::collections::HashMap<i8, [i16; 2]> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::collections::HashMap<i8, [i16; 2]> as Default>::default().to_val()) },
        FieldDef { name: "kind", json: "kind", ron: "kind", ty: <K as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "first_field_was_serialized", json: "first_field_was_serialized", ron: "first_field_was_serialized", ty: <Vec<U> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P120 { skip: Subject::from_val(&x[0]), o: Subject::from_val(&x[1]), kind: Subject::from_val(&x[2]), first_field_was_serialized: Subject::from_val(&x[3]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.skip.to_val(), self.o.to_val(), self.kind.to_val(), self.first_field_was_serialized.to_val()]) }
}


#[derive(Hash, Ord, Eq, SerRon)]
#[derive(DeJson, DeBin, PartialEq, SerBin, SerJson, Default, PartialOrd, DeRon)]
#[doc = "attr docs"]
#[allow(clippy::all)] pub enum P121  {
    /** block docs */
#[default]
South,
    Red,
    #[allow(dead_code)]
Box,
    lower,
    Option,
    #[allow(unused, non_snake_case)]
X3,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
Foo,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
Tuple,
    #[cfg(all())]
First,
    #[doc = "attr docs"]
e,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
X2,
    None_
}
impl Subject for P121 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P121", variants: &[
        VariantDef { name: "South", json: "South", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Red", json: "Red", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Box", json: "Box", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "lower", json: "lower", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Option", json: "Option", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "X3", json: "X3", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Foo", json: "Foo", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Tuple", json: "Tuple", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "First", json: "First", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "e", json: "e", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "X2", json: "X2", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "None_", json: "None_", kind: Kind::Unit, fields: &[] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::South, 1 => Self::Red, 2 => Self::Box, 3 => Self::lower, 4 => Self::Option, 5 => Self::X3, 6 => Self::Foo, 7 => Self::Tuple, 8 => Self::First, 9 => Self::e, 10 => Self::X2, 11 => Self::None_, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::South => Val::Enum(0, vec![]), Self::Red => Val::Enum(1, vec![]), Self::Box => Val::Enum(2, vec![]), Self::lower => Val::Enum(3, vec![]), Self::Option => Val::Enum(4, vec![]), Self::X3 => Val::Enum(5, vec![]), Self::Foo => Val::Enum(6, vec![]), Self::Tuple => Val::Enum(7, vec![]), Self::First => Val::Enum(8, vec![]), Self::e => Val::Enum(9, vec![]), Self::X2 => Val::Enum(10, vec![]), Self::None_ => Val::Enum(11, vec![]), } }
}


#[derive(DeBin, SerBin)]
// plain comment
#[allow(clippy::all)] pub enum P122  {
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
#[nserde(rename = r"\n")]
String {
#[cfg(all())]
NULL: [P105<bool, -1>; 0x3]
},
    #[doc = "attr docs"]
C {
/** block docs */
x11: P102Big
},
    #[cfg(all())]
Third(),
}
impl Subject for P122 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P122", variants: &[
        VariantDef { name: "String", json: "\\n", kind: Kind::Named, fields: &[FieldDef { name: "NULL", json: "NULL", ron: "NULL", ty: <[P105<bool, -1>; 0x3] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] },
        VariantDef { name: "C", json: "C", kind: Kind::Named, fields: &[FieldDef { name: "x11", json: "x11", ron: "x11", ty: <P102Big as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] },
        VariantDef { name: "Third", json: "Third", kind: Kind::Tuple, fields: &[] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::String { NULL: Subject::from_val(&x_[0]) }, 1 => Self::C { x11: Subject::from_val(&x_[0]) }, 2 => Self::Third(), _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::String { NULL: b0 } => Val::Enum(0, vec![b0.to_val()]), Self::C { x11: b0 } => Val::Enum(1, vec![b0.to_val()]), Self::Third() => Val::Enum(2, vec![]), } }
}


#[derive(DeRon, SerJson, DeBin, SerBin, PartialEq, DeJson, SerRon, PartialOrd, Default)]
#[derive(Hash, Ord, Eq)]
#[doc = "attr docs"]
#[nserde(crate = "::nanoserde")]
#[nserde(transparent)]
#[doc = "attr docs"]
// plain comment
pub struct P123(Duration, #[cfg(all())]
pub(crate) core::option::Option<[u16; 4]>) ;
impl Subject for P123  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P123", kind: Kind::Tuple, transparent: true, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <Duration as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Duration as Default>::default().to_val()) },
        FieldDef { name: "", json: "", ron: "", ty: <core::option::Option<[u16; 4]> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <core::option::Option<[u16; 4]> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P123(Subject::from_val(&x[0]), Subject::from_val(&x[1])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val(), self.1.to_val()]) }
}


#[derive(SerBin, DeBin)]
pub struct P124<A1: core::fmt::Debug, const Q: u8 = b'x'> where A1: DeJsonOwned, {
    #[nserde(rename = r"default")]
#[allow(dead_code)]
pub(super) nan: A1,
    /** block docs */
pub inf: [Vec<u8>; 4]
}
impl<A1: core::fmt::Debug + DeJsonOwned + Subject, const Q: u8> Subject for P124<A1, Q>  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P124", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "nan", json: "default", ron: "default", ty: <A1 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "inf", json: "inf", ron: "inf", ty: <[Vec<u8>; 4] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <[Vec<u8>; 4] as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P124 { nan: Subject::from_val(&x[0]), inf: Subject::from_val(&x[1]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.nan.to_val(), self.inf.to_val()]) }
}


#[derive(DeBin, DeRon, Default, SerBin, SerRon, DeJson, SerJson)]
/** block docs */
pub struct P125(pub(crate) Duration,) ;
impl Subject for P125  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P125", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <Duration as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Duration as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P125(Subject::from_val(&x[0])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val()]) }
}


#[derive(Default, DeRon, SerBin)]
#[derive(DeBin, SerRon, SerJson, DeJson)]
/** block docs */
#[allow(clippy::all)] pub enum P126  {
    #[default]
nan,
    // plain comment
D {
Vec_: i8,
},
    X2(P121, #[cfg(all())]
P109),
    SHOUT {
#[nserde(rename = r"cur")]
u1: Option<P123>,
m50: P121,
/** block docs */
#[nserde(rename = "e1")]
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
j25: usize,
// plain comment
#[nserde(default_with = "self::dflt_126_0", rename = "NONE",)]
y96: [(u8, Kc<'\''>, f32, u64,); 4]
},
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
Err(#[cfg(all())]
P121, #[cfg(all())]
u8),
    // plain comment
Ok,
    Vec(P105<bool, -1>)
}
impl Subject for P126 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P126", variants: &[
        VariantDef { name: "nan", json: "nan", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "D", json: "D", kind: Kind::Named, fields: &[FieldDef { name: "Vec_", json: "Vec_", ron: "Vec_", ty: <i8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i8 as Default>::default().to_val()) }] },
        VariantDef { name: "X2", json: "X2", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <P121 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <P121 as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <P109 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <P109 as Default>::default().to_val()) }] },
        VariantDef { name: "SHOUT", json: "SHOUT", kind: Kind::Named, fields: &[FieldDef { name: "u1", json: "cur", ron: "cur", ty: <Option<P123> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<P123> as Default>::default().to_val()) }, FieldDef { name: "m50", json: "m50", ron: "m50", ty: <P121 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <P121 as Default>::default().to_val()) }, FieldDef { name: "j25", json: "e1", ron: "e1", ty: <usize as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <usize as Default>::default().to_val()) }, FieldDef { name: "y96", json: "NONE", ron: "NONE", ty: <[(u8, Kc<'\''>, f32, u64,); 4] as Subject>::ty, skip: false, dflt: Dflt::Value(|| dflt_126_0().to_val()), is_opt: false, null_none: false, type_default: Some(|| <[(u8, Kc<'\''>, f32, u64,); 4] as Default>::default().to_val()) }] },
        VariantDef { name: "Err", json: "Err", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <P121 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <P121 as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }] },
        VariantDef { name: "Ok", json: "Ok", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Vec", json: "Vec", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <P105<bool, -1> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::nan, 1 => Self::D { Vec_: Subject::from_val(&x_[0]) }, 2 => Self::X2(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), 3 => Self::SHOUT { u1: Subject::from_val(&x_[0]), m50: Subject::from_val(&x_[1]), j25: Subject::from_val(&x_[2]), y96: Subject::from_val(&x_[3]) }, 4 => Self::Err(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), 5 => Self::Ok, 6 => Self::Vec(Subject::from_val(&x_[0])), _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::nan => Val::Enum(0, vec![]), Self::D { Vec_: b0 } => Val::Enum(1, vec![b0.to_val()]), Self::X2(b0, b1) => Val::Enum(2, vec![b0.to_val(), b1.to_val()]), Self::SHOUT { u1: b0, m50: b1, j25: b2, y96: b3 } => Val::Enum(3, vec![b0.to_val(), b1.to_val(), b2.to_val(), b3.to_val()]), Self::Err(b0, b1) => Val::Enum(4, vec![b0.to_val(), b1.to_val()]), Self::Ok => Val::Enum(5, vec![]), Self::Vec(b0) => Val::Enum(6, vec![b0.to_val()]), } }
}
fn dflt_126_0() -> [(u8, Kc<'\''>, f32, u64,); 4] { <[(u8, Kc<'\''>, f32, u64,); 4] as Subject>::from_val(&vcore::gen::sample::<[(u8, Kc<'\''>, f32, u64,); 4]>(625253821)) }

#[doc = "attr docs"]
#[derive(SerJson)]
#[derive(DeJson)]
pub struct P127  {
    c15: i16,
    #[doc = "attr docs"]
#[nserde(proxy = "XP127_1")]
#[nserde(serialize_none_as_null)]
pub _a: core::option::Option<WP127_0>,
    #[allow(unused, non_snake_case)]
pub(super) y72: P114,
    #[cfg(all())]
#[nserde(rename = r#"naïve"#,)]
#[doc = "attr docs"]
pub l92: u64,
    #[allow(dead_code)]
pub(crate) snake_case_name: P112,
    #[allow(unused, non_snake_case)]
pub(super) msg: Vec<SystemTime>
}
impl Subject for P127  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P127", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "c15", json: "c15", ron: "c15", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) },
        FieldDef { name: "_a", json: "_a", ron: "_a", ty: <core::option::Option<WP127_0> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <core::option::Option<WP127_0> as Default>::default().to_val()) },
        FieldDef { name: "y72", json: "y72", ron: "y72", ty: <P114 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "l92", json: "naïve", ron: "naïve", ty: <u64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u64 as Default>::default().to_val()) },
        FieldDef { name: "snake_case_name", json: "snake_case_name", ron: "snake_case_name", ty: <P112 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "msg", json: "msg", ron: "msg", ty: <Vec<SystemTime> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<SystemTime> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P127 { c15: Subject::from_val(&x[0]), _a: Subject::from_val(&x[1]), y72: Subject::from_val(&x[2]), l92: Subject::from_val(&x[3]), snake_case_name: Subject::from_val(&x[4]), msg: Subject::from_val(&x[5]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.c15.to_val(), self._a.to_val(), self.y72.to_val(), self.l92.to_val(), self.snake_case_name.to_val(), self.msg.to_val()]) }
}
#[derive(nanoserde::DeJson)]
#[derive(nanoserde::SerJson)]
 pub struct XP127_1 { pub inner: u64, pub more: bool }
impl Subject for XP127_1  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "XP127_1", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "inner", json: "inner", ron: "inner", ty: <u64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "more", json: "more", ron: "more", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); XP127_1 { inner: Subject::from_val(&x[0]), more: Subject::from_val(&x[1]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.inner.to_val(), self.more.to_val()]) }
}
pub struct WP127_0(pub Val);
impl Default for WP127_0 { fn default() -> Self { WP127_0(vcore::gen::sample::<XP127_1>(899745210)) } }
impl Subject for WP127_0 { const TY: TyRef = <XP127_1 as Subject>::TY; fn from_val(v: &Val) -> Self { WP127_0(v.clone()) } fn to_val(&self) -> Val { self.0.clone() } }
impl From<&WP127_0> for XP127_1 { fn from(x: &WP127_0) -> Self { Subject::from_val(&x.0) } }
impl From<&XP127_1> for WP127_0 { fn from(x: &XP127_1) -> Self { WP127_0(x.to_val()) } }

macro_rules! mk_P128 { ($a0:ty, $a1:meta, $a2:ty, $a3:vis,) => {
#[derive(DeRon, DeBin, Default, SerRon, SerBin, SerJson, DeJson)]
$a3 struct P128  {
    f24: $a0,
    #[allow(unused, non_snake_case)]
c: u64,
    /** block docs */
#[$a1]
#[allow(unused, non_snake_case)]
r#match: $a2,
}
} }
mk_P128!(P115, nserde(rename = r"crate"), BTreeMap<i32, Option<i16>>, pub,);
impl Subject for P128  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P128", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "f24", json: "f24", ron: "f24", ty: <P115 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <P115 as Default>::default().to_val()) },
        FieldDef { name: "c", json: "c", ron: "c", ty: <u64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u64 as Default>::default().to_val()) },
        FieldDef { name: "r#match", json: "crate", ron: "crate", ty: <BTreeMap<i32, Option<i16>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<i32, Option<i16>> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P128 { f24: Subject::from_val(&x[0]), c: Subject::from_val(&x[1]), r#match: Subject::from_val(&x[2]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f24.to_val(), self.c.to_val(), self.r#match.to_val()]) }
}


#[derive(Default, SerJson, DeJson)]
pub struct P129(BTreeSet<u16>, pub std::collections::HashMap<String, Option<i16>>) ;
impl Subject for P129  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P129", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <BTreeSet<u16> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeSet<u16> as Default>::default().to_val()) },
        FieldDef { name: "", json: "", ron: "", ty: <std::collections::HashMap<String, Option<i16>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::collections::HashMap<String, Option<i16>> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P129(Subject::from_val(&x[0]), Subject::from_val(&x[1])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val(), self.1.to_val()]) }
}

#[derive(SerJson)]
/** block docs */
pub struct P129Lent<'a, 'b: 'a>(&'a BTreeSet<u16>, /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
&'b std::collections::HashMap<String, Option<i16>>) ;
pub struct P129View(P129);
impl Subject for P129View { const TY: TyRef = <P129 as Subject>::TY; fn from_val(v: &Val) -> Self { P129View(Subject::from_val(v)) } fn to_val(&self) -> Val { self.0.to_val() } }
impl SerJson for P129View { fn ser_json(&self, d: usize, s: &mut nanoserde::SerJsonState) { match &self.0 { P129(x0, x1) => P129Lent(x0, x1).ser_json(d, s), } } }
impl DeJson for P129View { fn de_json(s: &mut nanoserde::DeJsonState, i: &mut core::str::Chars) -> Result<Self, nanoserde::DeJsonErr> { Ok(P129View(DeJson::de_json(s, i)?)) } }

#[derive(SerRon)]
#[derive(DeJson, DeRon, SerJson)]
/** block docs */
#[allow(clippy::all)] pub(crate) enum P130<A1, const N: usize> where A1: Clone + Marker {
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
North,
    #[allow(dead_code)]
TRUE,
    Err,
    /** block docs */
UseA1(Vec<A1>,),
}
impl<A1: Clone + Marker + Subject, const N: usize> Subject for P130<A1, N> {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P130", variants: &[
        VariantDef { name: "North", json: "North", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "TRUE", json: "TRUE", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Err", json: "Err", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "UseA1", json: "UseA1", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <Vec<A1> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::North, 1 => Self::TRUE, 2 => Self::Err, 3 => Self::UseA1(Subject::from_val(&x_[0])), _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::North => Val::Enum(0, vec![]), Self::TRUE => Val::Enum(1, vec![]), Self::Err => Val::Enum(2, vec![]), Self::UseA1(b0) => Val::Enum(3, vec![b0.to_val()]), } }
}


// plain comment
#[derive(SerBin)]
#[derive(DeJson, SerJson, DeRon, Default, SerRon, DeBin)]
pub struct P131  {
    #[cfg(all())]
pub(super) v: HashMap<String, u16>,
}
impl Subject for P131  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P131", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "v", json: "v", ron: "v", ty: <HashMap<String, u16> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <HashMap<String, u16> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P131 { v: Subject::from_val(&x[0]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.v.to_val()]) }
}

#[derive(SerBin, SerJson, SerRon)]
pub struct P131Lent<'a>  {
#[doc = "attr docs"]
v: &'a HashMap<String, u16>
}
pub struct P131View(P131);
impl Subject for P131View { const TY: TyRef = <P131 as Subject>::TY; fn from_val(v: &Val) -> Self { P131View(Subject::from_val(v)) } fn to_val(&self) -> Val { self.0.to_val() } }
impl SerBin for P131View { fn ser_bin(&self, s: &mut Vec<u8>) { match &self.0 { P131 { v: x0 } => P131Lent { v: x0 }.ser_bin(s), } } }
impl DeBin for P131View { fn de_bin(o: &mut usize, d: &[u8]) -> Result<Self, nanoserde::DeBinErr> { Ok(P131View(DeBin::de_bin(o, d)?)) } }
impl SerJson for P131View { fn ser_json(&self, d: usize, s: &mut nanoserde::SerJsonState) { match &self.0 { P131 { v: x0 } => P131Lent { v: x0 }.ser_json(d, s), } } }
impl DeJson for P131View { fn de_json(s: &mut nanoserde::DeJsonState, i: &mut core::str::Chars) -> Result<Self, nanoserde::DeJsonErr> { Ok(P131View(DeJson::de_json(s, i)?)) } }
impl SerRon for P131View { fn ser_ron(&self, d: usize, s: &mut nanoserde::SerRonState) { match &self.0 { P131 { v: x0 } => P131Lent { v: x0 }.ser_ron(d, s), } } }
impl DeRon for P131View { fn de_ron(s: &mut nanoserde::DeRonState, i: &mut core::str::Chars) -> Result<Self, nanoserde::DeRonErr> { Ok(P131View(DeRon::de_ron(s, i)?)) } }

#[derive(SerRon, DeJson, DeRon, SerJson)]
#[cfg(all())]
#[nserde(serialize_none_as_null)]
pub struct P132<Item: MySerJson, const N: usize, const Q: bool = { 1 < 2 }> where Item: DeRonLike {
    pub a_: Item,
}
impl<Item: MySerJson + DeRonLike + Subject, const N: usize, const Q: bool> Subject for P132<Item, N, Q>  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P132", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "a_", json: "a_", ron: "a_", ty: <Item as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P132 { a_: Subject::from_val(&x[0]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.a_.to_val()]) }
}


#[derive(DeJson)]
#[derive(DeBin, SerRon, DeRon, SerJson, SerBin)]
#[allow(unused, non_snake_case)]
pub struct P133(pub(crate) std::collections::HashMap<usize, i16>, #[allow(unused, non_snake_case)]
pub P119<bool>,) ;
impl Subject for P133  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P133", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <std::collections::HashMap<usize, i16> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::collections::HashMap<usize, i16> as Default>::default().to_val()) },
        FieldDef { name: "", json: "", ron: "", ty: <P119<bool> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P133(Subject::from_val(&x[0]), Subject::from_val(&x[1])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val(), self.1.to_val()]) }
}

#[derive(SerBin, SerJson, SerRon)]
#[allow(unused, non_snake_case)]
pub struct P133Lent<'a>(/** block docs */
&'a std::collections::HashMap<usize, i16>, &'a P119<bool>) where 'a: 'a + 'a;
pub struct P133View(P133);
impl Subject for P133View { const TY: TyRef = <P133 as Subject>::TY; fn from_val(v: &Val) -> Self { P133View(Subject::from_val(v)) } fn to_val(&self) -> Val { self.0.to_val() } }
impl SerBin for P133View { fn ser_bin(&self, s: &mut Vec<u8>) { match &self.0 { P133(x0, x1) => P133Lent(x0, x1).ser_bin(s), } } }
impl DeBin for P133View { fn de_bin(o: &mut usize, d: &[u8]) -> Result<Self, nanoserde::DeBinErr> { Ok(P133View(DeBin::de_bin(o, d)?)) } }
impl SerJson for P133View { fn ser_json(&self, d: usize, s: &mut nanoserde::SerJsonState) { match &self.0 { P133(x0, x1) => P133Lent(x0, x1).ser_json(d, s), } } }
impl DeJson for P133View { fn de_json(s: &mut nanoserde::DeJsonState, i: &mut core::str::Chars) -> Result<Self, nanoserde::DeJsonErr> { Ok(P133View(DeJson::de_json(s, i)?)) } }
impl SerRon for P133View { fn ser_ron(&self, d: usize, s: &mut nanoserde::SerRonState) { match &self.0 { P133(x0, x1) => P133Lent(x0, x1).ser_ron(d, s), } } }
impl DeRon for P133View { fn de_ron(s: &mut nanoserde::DeRonState, i: &mut core::str::Chars) -> Result<Self, nanoserde::DeRonErr> { Ok(P133View(DeRon::de_ron(s, i)?)) } }

#[derive(nanoserde::DeJson, nanoserde::SerBin, nanoserde::DeBin, nanoserde::SerRon, Default, nanoserde::DeRon, nanoserde::SerJson)]
/** block docs */
#[nserde(crate = "nanoserde",)]
#[allow(dead_code)]
pub struct P134  {
    #[nserde(default_with = "self::dflt_134_0")]
#[allow(unused, non_snake_case)]
b73: f32,
    pub len: u8,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
pub nan: Option<Box<P134>>,
    d91: (),
    pub q99: Option<Box<P134>>
}
impl Subject for P134  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P134", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "b73", json: "b73", ron: "b73", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::Value(|| dflt_134_0().to_val()), is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) },
        FieldDef { name: "len", json: "len", ron: "len", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "nan", json: "nan", ron: "nan", ty: <Option<Box<P134>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Box<P134>> as Default>::default().to_val()) },
        FieldDef { name: "d91", json: "d91", ron: "d91", ty: <() as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <() as Default>::default().to_val()) },
        FieldDef { name: "q99", json: "q99", ron: "q99", ty: <Option<Box<P134>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Box<P134>> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P134 { b73: Subject::from_val(&x[0]), len: Subject::from_val(&x[1]), nan: Subject::from_val(&x[2]), d91: Subject::from_val(&x[3]), q99: Subject::from_val(&x[4]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.b73.to_val(), self.len.to_val(), self.nan.to_val(), self.d91.to_val(), self.q99.to_val()]) }
}
fn dflt_134_0() -> f32 { <f32 as Subject>::from_val(&vcore::gen::sample::<f32>(536188650)) }

#[derive(SerBin, DeBin)]
#[allow(clippy::all)] pub enum P135  {
    #[allow(unused, non_snake_case)]
none {
skip: Vec<P128>,
#[allow(unused, non_snake_case)]
#[nserde(rename = "ss")]
#[cfg(all())]
variant_name_: core::option::Option<u8>,
#[allow(unused, non_snake_case)]
j84: P125,
#[cfg(all())]
#[nserde(rename = r"[",)]
snake_case_name: i64,
},
    #[cfg(all())]
C(Vec<P124<bool, { u8::MAX }>>, std::vec::Vec<[i32; 1]>,),
    #[allow(dead_code)]
Vec,
    #[nserde(rename = "East",)]
Tuple,
    #[doc = "attr docs"]
None0 {
#[allow(unused, non_snake_case)]
a__b: String,
nan: std::vec::Vec<[String; 0]>,
},
    #[allow(dead_code)]
Blue(),
    some,
}
impl Subject for P135 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P135", variants: &[
        VariantDef { name: "none", json: "none", kind: Kind::Named, fields: &[FieldDef { name: "skip", json: "skip", ron: "skip", ty: <Vec<P128> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<P128> as Default>::default().to_val()) }, FieldDef { name: "variant_name_", json: "ss", ron: "ss", ty: <core::option::Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <core::option::Option<u8> as Default>::default().to_val()) }, FieldDef { name: "j84", json: "j84", ron: "j84", ty: <P125 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <P125 as Default>::default().to_val()) }, FieldDef { name: "snake_case_name", json: "[", ron: "[", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }] },
        VariantDef { name: "C", json: "C", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <Vec<P124<bool, { u8::MAX }>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<P124<bool, { u8::MAX }>> as Default>::default().to_val()) }, FieldDef { name: "", json: "", ron: "", ty: <std::vec::Vec<[i32; 1]> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::vec::Vec<[i32; 1]> as Default>::default().to_val()) }] },
        VariantDef { name: "Vec", json: "Vec", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Tuple", json: "East", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "None0", json: "None0", kind: Kind::Named, fields: &[FieldDef { name: "a__b", json: "a__b", ron: "a__b", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "nan", json: "nan", ron: "nan", ty: <std::vec::Vec<[String; 0]> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::vec::Vec<[String; 0]> as Default>::default().to_val()) }] },
        VariantDef { name: "Blue", json: "Blue", kind: Kind::Tuple, fields: &[] },
        VariantDef { name: "some", json: "some", kind: Kind::Unit, fields: &[] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::none { skip: Subject::from_val(&x_[0]), variant_name_: Subject::from_val(&x_[1]), j84: Subject::from_val(&x_[2]), snake_case_name: Subject::from_val(&x_[3]) }, 1 => Self::C(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), 2 => Self::Vec, 3 => Self::Tuple, 4 => Self::None0 { a__b: Subject::from_val(&x_[0]), nan: Subject::from_val(&x_[1]) }, 5 => Self::Blue(), 6 => Self::some, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::none { skip: b0, variant_name_: b1, j84: b2, snake_case_name: b3 } => Val::Enum(0, vec![b0.to_val(), b1.to_val(), b2.to_val(), b3.to_val()]), Self::C(b0, b1) => Val::Enum(1, vec![b0.to_val(), b1.to_val()]), Self::Vec => Val::Enum(2, vec![]), Self::Tuple => Val::Enum(3, vec![]), Self::None0 { a__b: b0, nan: b1 } => Val::Enum(4, vec![b0.to_val(), b1.to_val()]), Self::Blue() => Val::Enum(5, vec![]), Self::some => Val::Enum(6, vec![]), } }
}


/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
#[derive(SerBin, DeJson, DeBin, DeRon, SerJson, SerRon)]
pub struct P136();
impl Subject for P136  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P136", kind: Kind::Unit, transparent: false, container_default: false, fields: &[
        ] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P136 {} }
    fn to_val(&self) -> Val { Val::Rec(vec![]) }
}


#[derive(DeRon, DeJson, DeBin, SerBin, SerRon, SerJson, Default)]
#[allow(clippy::all)] pub enum P137  {
    #[allow(unused, non_snake_case)]
#[default]
Second,
    North,
}
impl Subject for P137 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P137", variants: &[
        VariantDef { name: "Second", json: "Second", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "North", json: "North", kind: Kind::Unit, fields: &[] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::Second, 1 => Self::North, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::Second => Val::Enum(0, vec![]), Self::North => Val::Enum(1, vec![]), } }
}


macro_rules! mk_P138 { ($a0:ty, $a1:vis,) => {
#[derive(Default, DeJson, SerJson)]
$a1 struct P138  {
    #[allow(dead_code)]
#[nserde(proxy = "XP138_1")]
pub q48: $a0
}
} }
mk_P138!(WP138_0, ,);
impl Subject for P138  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P138", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "q48", json: "q48", ron: "q48", ty: <WP138_0 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <WP138_0 as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P138 { q48: Subject::from_val(&x[0]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.q48.to_val()]) }
}
#[derive(DeJson, SerJson)]
 pub struct XP138_1 { pub inner: (P137, P130<bool, 0>,), pub more: bool }
impl Subject for XP138_1  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "XP138_1", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "inner", json: "inner", ron: "inner", ty: <(P137, P130<bool, 0>,) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "more", json: "more", ron: "more", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); XP138_1 { inner: Subject::from_val(&x[0]), more: Subject::from_val(&x[1]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.inner.to_val(), self.more.to_val()]) }
}
pub struct WP138_0(pub Val);
impl Default for WP138_0 { fn default() -> Self { WP138_0(vcore::gen::sample::<XP138_1>(1021484300)) } }
impl Subject for WP138_0 { const TY: TyRef = <XP138_1 as Subject>::TY; fn from_val(v: &Val) -> Self { WP138_0(v.clone()) } fn to_val(&self) -> Val { self.0.clone() } }
impl From<&WP138_0> for XP138_1 { fn from(x: &WP138_0) -> Self { Subject::from_val(&x.0) } }
impl From<&XP138_1> for WP138_0 { fn from(x: &XP138_1) -> Self { WP138_0(x.to_val()) } }

#[derive(DeBin, SerBin, SerRon, DeJson, DeRon, SerJson)]
pub struct P139  {
    #[allow(dead_code)]
#[nserde(rename = r#"o"#)]
col: P134,
    #[nserde(default = "-5")]
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
pub(super) Some: Option<i64>,
    #[doc = "attr docs"]
pub tok: i16
}
impl Subject for P139  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P139", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "col", json: "o", ron: "o", ty: <P134 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <P134 as Default>::default().to_val()) },
        FieldDef { name: "Some", json: "Some", ron: "Some", ty: <Option<i64> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<i64> = Some(-5); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<i64> as Default>::default().to_val()) },
        FieldDef { name: "tok", json: "tok", ron: "tok", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P139 { col: Subject::from_val(&x[0]), Some: Subject::from_val(&x[1]), tok: Subject::from_val(&x[2]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.col.to_val(), self.Some.to_val(), self.tok.to_val()]) }
}


#[derive(SerJson, DeJson)]
 pub struct P140Px { via: Duration, flag: bool }
impl Subject for P140Px  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P140Px", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "via", json: "via", ron: "via", ty: <Duration as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Duration as Default>::default().to_val()) },
        FieldDef { name: "flag", json: "flag", ron: "flag", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P140Px { via: Subject::from_val(&x[0]), flag: Subject::from_val(&x[1]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.via.to_val(), self.flag.to_val()]) }
}
#[derive(SerJson, DeJson)]
 #[nserde(proxy = "P140Px")]
pub struct P140 { hidden: Val }
impl Subject for P140 { const TY: TyRef = <P140Px as Subject>::TY; fn from_val(v: &Val) -> Self { let v = v.clone(); P140 { hidden: v } } fn to_val(&self) -> Val { self.hidden.clone() } }
impl From<&P140> for P140Px { fn from(x: &P140) -> Self { Subject::from_val(&x.hidden) } }
impl From<&P140Px> for P140 { fn from(x: &P140Px) -> Self { let v = x.to_val(); P140 { hidden: v } } }

macro_rules! mk_P141 { ($a0:ty, $a1:vis,) => {
#[derive(SerRon, SerBin, DeJson, SerJson, DeRon, DeBin)]
/** block docs */
$a1 struct P141<T: SerJsonX + Clone, const N: usize = 2> where [T; 2]: Clone {
    Some: $a0,
    #[cfg(all())]
pub a: T,
}
} }
mk_P141!(u32, ,);
impl<T: SerJsonX + Clone + Clone + Subject, const N: usize> Subject for P141<T, N>  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P141", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "Some", json: "Some", ron: "Some", ty: <u32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u32 as Default>::default().to_val()) },
        FieldDef { name: "a", json: "a", ron: "a", ty: <T as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P141 { Some: Subject::from_val(&x[0]), a: Subject::from_val(&x[1]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.Some.to_val(), self.a.to_val()]) }
}


#[derive(DeBin, SerBin)]
 pub struct P142Px { via: f64, flag: bool }
impl Subject for P142Px  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P142Px", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "via", json: "via", ron: "via", ty: <f64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f64 as Default>::default().to_val()) },
        FieldDef { name: "flag", json: "flag", ron: "flag", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P142Px { via: Subject::from_val(&x[0]), flag: Subject::from_val(&x[1]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.via.to_val(), self.flag.to_val()]) }
}
#[derive(DeBin, SerBin)]
 #[nserde(proxy = "P142Px")]
pub struct P142 { hidden: Val }
impl Subject for P142 { const TY: TyRef = <P142Px as Subject>::TY; fn from_val(v: &Val) -> Self { let v = v.clone(); P142 { hidden: v } } fn to_val(&self) -> Val { self.hidden.clone() } }
impl From<&P142> for P142Px { fn from(x: &P142) -> Self { Subject::from_val(&x.hidden) } }
impl From<&P142Px> for P142 { fn from(x: &P142Px) -> Self { let v = x.to_val(); P142 { hidden: v } } }

#[derive(nanoserde::DeRon)]
#[derive(nanoserde::SerRon)]
#[allow(clippy::all)] pub enum P143  {
    #[cfg(all())]
Bar(),
    #[doc = "attr docs"]
West,
    Foo {
#[allow(unused, non_snake_case)]
first_field_was_serialized: (),
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
#[nserde(default)]
UPPER: u32,
#[cfg(all())]
#[nserde(skip, default = LENI)]
p65: i8,
},
    Tuple(#[allow(dead_code)]
P132<i32, 0, false>, std::collections::BTreeSet<(i16, u32)>),
}
impl Subject for P143 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P143", variants: &[
        VariantDef { name: "Bar", json: "Bar", kind: Kind::Tuple, fields: &[] },
        VariantDef { name: "West", json: "West", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Foo", json: "Foo", kind: Kind::Named, fields: &[FieldDef { name: "first_field_was_serialized", json: "first_field_was_serialized", ron: "first_field_was_serialized", ty: <() as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <() as Default>::default().to_val()) }, FieldDef { name: "UPPER", json: "UPPER", ron: "UPPER", ty: <u32 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <u32 as Default>::default().to_val()) }, FieldDef { name: "p65", json: "p65", ron: "p65", ty: <i8 as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: i8 = LENI; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <i8 as Default>::default().to_val()) }] },
        VariantDef { name: "Tuple", json: "Tuple", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <P132<i32, 0, false> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "", json: "", ron: "", ty: <std::collections::BTreeSet<(i16, u32)> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::collections::BTreeSet<(i16, u32)> as Default>::default().to_val()) }] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::Bar(), 1 => Self::West, 2 => Self::Foo { first_field_was_serialized: Subject::from_val(&x_[0]), UPPER: Subject::from_val(&x_[1]), p65: Subject::from_val(&x_[2]) }, 3 => Self::Tuple(Subject::from_val(&x_[0]), Subject::from_val(&x_[1])), _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::Bar() => Val::Enum(0, vec![]), Self::West => Val::Enum(1, vec![]), Self::Foo { first_field_was_serialized: b0, UPPER: b1, p65: b2 } => Val::Enum(2, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::Tuple(b0, b1) => Val::Enum(3, vec![b0.to_val(), b1.to_val()]), } }
}


#[derive(SerRon, SerBin, DeRon, SerJson, DeBin, DeJson)]
#[allow(unused, non_snake_case)]
#[allow(clippy::all)] pub(in crate) enum P144  {
    // plain comment
String,
    #[cfg(all())]
B,
    Blue,
    // plain comment
#[nserde(rename = "")]
nan
}
impl Subject for P144 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P144", variants: &[
        VariantDef { name: "String", json: "String", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "B", json: "B", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Blue", json: "Blue", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "nan", json: "", kind: Kind::Unit, fields: &[] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::String, 1 => Self::B, 2 => Self::Blue, 3 => Self::nan, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::String => Val::Enum(0, vec![]), Self::B => Val::Enum(1, vec![]), Self::Blue => Val::Enum(2, vec![]), Self::nan => Val::Enum(3, vec![]), } }
}


macro_rules! mk_P145 { ($a0:vis,) => {
#[derive(SerBin, SerJson, DeRon)]
#[derive(SerRon, DeBin, DeJson)]
#[allow(dead_code)]
#[allow(clippy::all)] $a0 enum P145  {
    Self_,
    // plain comment
Err,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
some,
    #[allow(dead_code)]
Qux,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
TRUE
}
} }
mk_P145!(pub,);
impl Subject for P145 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P145", variants: &[
        VariantDef { name: "Self_", json: "Self_", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Err", json: "Err", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "some", json: "some", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Qux", json: "Qux", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "TRUE", json: "TRUE", kind: Kind::Unit, fields: &[] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::Self_, 1 => Self::Err, 2 => Self::some, 3 => Self::Qux, 4 => Self::TRUE, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::Self_ => Val::Enum(0, vec![]), Self::Err => Val::Enum(1, vec![]), Self::some => Val::Enum(2, vec![]), Self::Qux => Val::Enum(3, vec![]), Self::TRUE => Val::Enum(4, vec![]), } }
}


#[derive(DeJson, DeBin, SerBin, SerJson)]
 pub struct P146Px { via: core::option::Option<P144>, flag: bool }
impl Subject for P146Px  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P146Px", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "via", json: "via", ron: "via", ty: <core::option::Option<P144> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <core::option::Option<P144> as Default>::default().to_val()) },
        FieldDef { name: "flag", json: "flag", ron: "flag", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P146Px { via: Subject::from_val(&x[0]), flag: Subject::from_val(&x[1]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.via.to_val(), self.flag.to_val()]) }
}
#[derive(DeJson, DeBin, SerBin, SerJson)]
 #[nserde(proxy = "P146Px")]
pub struct P146 (Val);
impl Subject for P146 { const TY: TyRef = <P146Px as Subject>::TY; fn from_val(v: &Val) -> Self { let v = v.clone(); P146(v) } fn to_val(&self) -> Val { self.0.clone() } }
impl From<&P146> for P146Px { fn from(x: &P146) -> Self { Subject::from_val(&x.0) } }
impl From<&P146Px> for P146 { fn from(x: &P146Px) -> Self { let v = x.to_val(); P146(v) } }

#[derive(DeRon, DeBin, DeJson, SerJson, SerRon, SerBin)]
#[cfg(all())]
#[nserde(serialize_none_as_null)]
#[allow(unused, non_snake_case)]
pub(crate) struct P147  {
    pub x64: P131,
}
impl Subject for P147  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P147", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "x64", json: "x64", ron: "x64", ty: <P131 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <P131 as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P147 { x64: Subject::from_val(&x[0]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.x64.to_val()]) }
}


#[derive(DeBin, SerRon, DeJson, DeRon)]
#[derive(SerJson, SerBin)]
#[doc = "attr docs"]
pub(in crate) struct P148  {
    #[allow(dead_code)]
pub(crate) __y: P131,
    pub Z: P133,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
pub(super) f: [f32; 2 * LEN],
}
impl Subject for P148  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P148", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "__y", json: "__y", ron: "__y", ty: <P131 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <P131 as Default>::default().to_val()) },
        FieldDef { name: "Z", json: "Z", ron: "Z", ty: <P133 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None },
        FieldDef { name: "f", json: "f", ron: "f", ty: <[f32; 2 * LEN] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P148 { __y: Subject::from_val(&x[0]), Z: Subject::from_val(&x[1]), f: Subject::from_val(&x[2]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.__y.to_val(), self.Z.to_val(), self.f.to_val()]) }
}


#[derive(DeRon, PartialOrd, SerRon, Ord, Hash, DeJson, Eq, DeBin, PartialEq, SerBin, SerJson)]
#[cfg(all())]
#[allow(clippy::all)] pub enum P149  {
    /** block docs */
#[nserde(rename = "x\n")]
#[allow(unused, non_snake_case)]
Y_1,
    Green,
    /** block docs */
#[nserde(rename = r#"Second"#)]
/** block docs */
None_,
    Err_,
    #[cfg(all())]
Third,
    // plain comment
inf,
    #[allow(dead_code)]
#[nserde(rename = "//",)]
Baz,
}
impl Subject for P149 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P149", variants: &[
        VariantDef { name: "Y_1", json: "x\n", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Green", json: "Green", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "None_", json: "Second", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Err_", json: "Err_", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Third", json: "Third", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "inf", json: "inf", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Baz", json: "//", kind: Kind::Unit, fields: &[] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::Y_1, 1 => Self::Green, 2 => Self::None_, 3 => Self::Err_, 4 => Self::Third, 5 => Self::inf, 6 => Self::Baz, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::Y_1 => Val::Enum(0, vec![]), Self::Green => Val::Enum(1, vec![]), Self::None_ => Val::Enum(2, vec![]), Self::Err_ => Val::Enum(3, vec![]), Self::Third => Val::Enum(4, vec![]), Self::inf => Val::Enum(5, vec![]), Self::Baz => Val::Enum(6, vec![]), } }
}


#[derive(DeBin, DeJson, SerJson, SerBin, DeRon, SerRon)]
#[allow(clippy::all)] pub enum P150  {
    #[cfg(all())]
Red {
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
buf: Box<Vec<String>>,
},
    E1(#[allow(dead_code)]
std::collections::BTreeSet<(bool, u16)>,),
    #[allow(dead_code)]
X1 {
// plain comment
r#yield: i64,
#[allow(dead_code)]
len: P147,
// plain comment
buf: P136,
#[allow(unused, non_snake_case)]
#[nserde(skip)]
a: i32,
},
    Green,
    Some_(),
    e {
// plain comment
m37: (),
msg: core::option::Option<(u64, u8)>,
y: ((u8, f32), Vec<u16>, [u16; 3usize],)
},
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
VeryLongVariantNameThatGoesOnAndOn
}
impl Subject for P150 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "P150", variants: &[
        VariantDef { name: "Red", json: "Red", kind: Kind::Named, fields: &[FieldDef { name: "buf", json: "buf", ron: "buf", ty: <Box<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Box<Vec<String>> as Default>::default().to_val()) }] },
        VariantDef { name: "E1", json: "E1", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <std::collections::BTreeSet<(bool, u16)> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::collections::BTreeSet<(bool, u16)> as Default>::default().to_val()) }] },
        VariantDef { name: "X1", json: "X1", kind: Kind::Named, fields: &[FieldDef { name: "r#yield", json: "yield", ron: "yield", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }, FieldDef { name: "len", json: "len", ron: "len", ty: <P147 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "buf", json: "buf", ron: "buf", ty: <P136 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }, FieldDef { name: "a", json: "a", ron: "a", ty: <i32 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i32 as Default>::default().to_val()) }] },
        VariantDef { name: "Green", json: "Green", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "Some_", json: "Some_", kind: Kind::Tuple, fields: &[] },
        VariantDef { name: "e", json: "e", kind: Kind::Named, fields: &[FieldDef { name: "m37", json: "m37", ron: "m37", ty: <() as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <() as Default>::default().to_val()) }, FieldDef { name: "msg", json: "msg", ron: "msg", ty: <core::option::Option<(u64, u8)> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <core::option::Option<(u64, u8)> as Default>::default().to_val()) }, FieldDef { name: "y", json: "y", ron: "y", ty: <((u8, f32), Vec<u16>, [u16; 3usize],) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <((u8, f32), Vec<u16>, [u16; 3usize],) as Default>::default().to_val()) }] },
        VariantDef { name: "VeryLongVariantNameThatGoesOnAndOn", json: "VeryLongVariantNameThatGoesOnAndOn", kind: Kind::Unit, fields: &[] }] });
    fn from_val(v_: &Val) -> Self { let Val::Enum(i_, x_) = v_ else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::Red { buf: Subject::from_val(&x_[0]) }, 1 => Self::E1(Subject::from_val(&x_[0])), 2 => Self::X1 { r#yield: Subject::from_val(&x_[0]), len: Subject::from_val(&x_[1]), buf: Subject::from_val(&x_[2]), a: Subject::from_val(&x_[3]) }, 3 => Self::Green, 4 => Self::Some_(), 5 => Self::e { m37: Subject::from_val(&x_[0]), msg: Subject::from_val(&x_[1]), y: Subject::from_val(&x_[2]) }, 6 => Self::VeryLongVariantNameThatGoesOnAndOn, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::Red { buf: b0 } => Val::Enum(0, vec![b0.to_val()]), Self::E1(b0) => Val::Enum(1, vec![b0.to_val()]), Self::X1 { r#yield: b0, len: b1, buf: b2, a: b3 } => Val::Enum(2, vec![b0.to_val(), b1.to_val(), b2.to_val(), b3.to_val()]), Self::Green => Val::Enum(3, vec![]), Self::Some_() => Val::Enum(4, vec![]), Self::e { m37: b0, msg: b1, y: b2 } => Val::Enum(5, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::VeryLongVariantNameThatGoesOnAndOn => Val::Enum(6, vec![]), } }
}


#[derive(nanoserde::DeBin, nanoserde::SerRon)]
#[derive(nanoserde::DeRon, nanoserde::SerBin)]
#[doc = "attr docs"]
pub struct P151<K>  {
    #[cfg(all())]
pub x86: Box<K>,
}
impl<K: Subject> Subject for P151<K>  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P151", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "x86", json: "x86", ron: "x86", ty: <Box<K> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: None }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P151 { x86: Subject::from_val(&x[0]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.x86.to_val()]) }
}


#[derive(SerRon, DeBin, Default, SerBin, DeRon, DeJson)]
#[derive(SerJson)]
pub struct P152(pub(super) u8, #[allow(dead_code)]
pub P134, pub u32) ;
impl Subject for P152  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P152", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "", json: "", ron: "", ty: <P134 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <P134 as Default>::default().to_val()) },
        FieldDef { name: "", json: "", ron: "", ty: <u32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u32 as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P152(Subject::from_val(&x[0]), Subject::from_val(&x[1]), Subject::from_val(&x[2])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val(), self.1.to_val(), self.2.to_val()]) }
}


#[derive(nanoserde::DeRon, Default, nanoserde::SerBin, nanoserde::SerRon, nanoserde::SerJson, nanoserde::DeBin, nanoserde::DeJson)]
#[nserde(default)]
pub struct P153Big  {
    #[nserde(skip)]
pub(super) nan: u32,
    #[cfg(all())]
#[nserde(default_with = "self::dflt_153_0",)]
#[cfg(all())]
pub(super) o: String,
    pub b: Option<P147>,
    #[allow(dead_code)]
#[nserde(skip)]
u33: HashMap<String, Duration>,
    pub r#enum: f64,
    pub w: usize,
    /** block docs */
pub d: [P152; 4],
    #[cfg(all())]
pub rename_: u32,
    #[cfg(all())]
pub t17: i8,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
#[nserde(rename = "type")]
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
deserialize_ron: core::option::Option<f32>,
    #[nserde(rename = r#"int64"#)]
#[cfg(all())]
pub(super) v: BTreeMap<String, SystemTime>,
    o2: HashSet<i64>,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
null: P137,
    #[cfg(all())]
pub(super) Option_: BTreeSet<u8>,
    pub bytes: u32,
    pub u37: Vec<P133>,
    #[nserde(default)]
#[cfg(all())]
list: Vec<i64>,
    pub(super) std_: ::std::option::Option<Box<i8>>,
    #[nserde(rename = "long_field_name_that_goes_on_and_on_and_on_and_does_not_stop_here")]
a: f32,
    #[allow(unused, non_snake_case)]
pub(super) truex: i16,
    #[nserde(skip, rename = "name")]
// plain comment
pub(super) ok_: Vec<Vec<u8>>,
    #[doc = "attr docs"]
pub NULL: Option<P152>,
    pub Some: u64,
    #[doc = "attr docs"]
pub r#use: u64,
    #[allow(dead_code)]
pub(crate) z: (i8, [bool; LEN], u32,),
    pub l57: P152,
    #[allow(unused, non_snake_case)]
pub(super) w42: f32,
    #[allow(unused, non_snake_case)]
pub o67: HashSet<Box<bool>>,
    #[cfg(all())]
#[nserde(default = r"true", skip)]
#[cfg(all())]
i: bool,
    /** block docs */
pub(crate) s89: Duration,
    #[nserde(rename = "kind")]
pub f8: Duration,
    #[doc = "attr docs"]
pub strbuf: Vec<core::option::Option<Kb<{ 1 > 2 }>>>,
    s: P131,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
pub(super) o33: u16,
    #[nserde(default)]
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
pub _0x: Option<u16>,
    #[doc = "attr docs"]
pub n27: u64,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
pub(super) buf: i8,
    // plain comment
pub(crate) Ok: [bool; 3],
    // plain comment
#[nserde(skip,)]
pub none_: Odd<fn(u8) -> u8>,
    #[cfg(all())]
#[nserde(default_with = "dflt_153_1")]
#[allow(dead_code)]
pub t: <u8 as Assoc>::Ty,
    Vec_: Box<i64>,
    #[allow(dead_code)]
#[nserde(rename = "e")]
/// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
pub u64: Option<i64>,
    #[nserde(rename = "unknown")]
// plain comment
pub(crate) f1: Box<std::collections::BTreeSet<i16>>,
    #[nserde(rename = "camelCase")]
t65: (BTreeMap<i32, Duration>, Box<u64>, u8,),
    /** block docs */
pub(super) col: bool,
    // plain comment
pub(crate) de_bin: u16,
    #[cfg(all())]
pub(super) b40: std::vec::Vec<P133>,
    // plain comment
#[nserde(default = "1_0",)]
#[allow(unused, non_snake_case)]
none: u64,
    #[allow(dead_code)]
pub(crate) y82: u16,
    pub(super) e74: core::option::Option<Duration>,
    r83: Vec<P148>,
    #[nserde(serialize_none_as_null)]
#[allow(dead_code)]
q99: ::std::option::Option<P137>,
    #[cfg(all())]
pub _s: u32,
    pub(super) field: P152,
    #[nserde(rename = "Renamed")]
#[allow(dead_code)]
pub x72: String,
    #[cfg(all())]
#[nserde(skip)]
#[allow(unused, non_snake_case)]
pub(crate) w94: Odd<fn(u8) -> u8>,
    pub(crate) identbuf: Vec<P141<u8, 0>>,
    #[cfg(all())]
#[nserde(default)]
#[allow(unused, non_snake_case)]
#[nserde(serialize_none_as_null)]
// plain comment
#[nserde(skip)]
pub(super) y: Option<Vec<i16>>,
    pub error: f64,
    e6: Vec<LinkedList<Kn<{ 9 >> 1 }>>>,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
pub(crate) result: P131,
    #[allow(unused, non_snake_case)]
pub(super) data: f32,
    // plain comment
f: <Alias<Vec<u8>> as self::Assoc>::Ty,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
#[nserde(default,)]
default_value: i8,
    #[nserde(default)]
pub b53: usize,
    #[cfg(all())]
pub x30: Duration,
    #[nserde(default)]
#[nserde(rename = "variant_name_")]
/** block docs */
#[doc = "attr docs"]
pub(crate) e35: String,
    // plain comment
#[nserde(skip)]
// plain comment
pub ser_json: f64,
    pub key: Vec<P133>,
    #[cfg(all())]
#[nserde(default)]
/** block docs */
r18: Box<BTreeMap<String, Kb<{ 'a' == '}' }>>>,
    w20: (),
    // plain comment
pub t34: Kb<{ 1 > 2 }>,
    /** block docs */
pub(crate) chars: bool,
    #[doc = "attr docs"]
pub(crate) r#let: i64,
    default: BTreeMap<String, (u32, Kn<7>, Duration, f32)>,
    pub a_: ::std::string::String,
    #[doc = "attr docs"]
#[nserde(rename = "None")]
pub items: bool,
    #[cfg(all())]
pub NONE: u8,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
pub c57: Vec<P149>,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
i64: Option<P149>,
    pub r5: u16,
    /** block docs */
r#fn: core::option::Option<[i16; 2]>,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
#[nserde(rename = r"numbuf")]
// plain comment
s42: f64,
    pub(crate) l4: P131,
    #[allow(unused, non_snake_case)]
pub n30: usize,
    #[allow(dead_code)]
pub(crate) nanoserde_: Duration,
    pub u8_: Box<(Duration, i8,)>,
    #[allow(unused, non_snake_case)]
pub j65: u8,
    #[doc = "attr docs"]
pub(super) f83: Option<Duration>,
    /** block docs */
i0: std::vec::Vec<i16>,
    #[nserde(serialize_none_as_null,)]
pub n2: core::option::Option<i8>,
    // plain comment
#[nserde(rename = r"snake_case_name")]
#[allow(dead_code)]
pub t48: std::option::Option<[i16; 0x3]>,
    c: i32,
    #[doc = "attr docs"]
pub(super) value: Kn<{ 9 >> 1 }>,
    pub(crate) m94: [(u64, ::std::string::String); 3],
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
q91: std::collections::HashMap<(u64, u64), LinkedList<u64>>,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
pub(super) first: P152,
    pub(crate) r36: P131,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
g3: i64,
    #[allow(dead_code)]
pub out: Option<[f64; LEN]>,
    pub d1: std::collections::HashMap<i8, ((), u64,)>,
    pub(super) m13: std::string::String,
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
pub(crate) u97: LinkedList<P141<u8, 0>>,
    // plain comment
Y: [Kn<7>; 0x3],
    pub u11: u32,
    pub(super) r#where: [Option<u16>; 0x3],
    #[allow(unused, non_snake_case)]
pub(crate) first_field_was_serialized: u8,
    pub String_: std::option::Option<[u8; { LEN + 1 }]>,
    pub z4: std::collections::HashMap<String, i16>,
    #[allow(unused, non_snake_case)]
#[nserde(skip)]
#[allow(dead_code)]
#[nserde(default)]
pub(super) state: u16,
    pub e49: Vec<P134>,
    pub(crate) UPPER: Vec<Option<String>>,
    /** block docs */
pub(super) r1: (i32, i16,),
    r29: (<u8 as Assoc>::Ty, HashSet<i64>, i8,),
    z69: (P131, [u8; 1]),
    pub q54: Option<P137>,
    pub nul: (i32, String,),
    #[doc = "attr docs"]
pub(super) u65: P137,
    #[doc = "attr docs"]
last: u64,
    #[nserde(rename = r#"X"#,)]
n19: BTreeSet<(i8, u16)>,
    #[cfg(all())]
pub _a: (Duration, LinkedList<Duration>, i32),
    /// Docs, with "quotes" and {braces}, #[nserde(skip)] and so on.
pub(crate) y95: core::option::Option<f32>,
    #[cfg(all())]
#[nserde(rename = r#"true_"#)]
#[allow(dead_code)]
t73: Box<std::collections::BTreeSet<usize>>,
    #[nserde(skip)]
pub(crate) r16: Kc<','>,
    pub(super) n71: Vec<String>,
    #[doc = "attr docs"]
#[nserde(rename = r#"proxy"#)]
#[doc = "attr docs"]
pub i34: u64,
    pub i12: Kb<true>,
    // plain comment
#[nserde(default = "true")]
/** block docs */
pub o54: bool,
    pub some: String,
    #[allow(unused, non_snake_case)]
pub v60: P152
}
impl Subject for P153Big  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "P153Big", kind: Kind::Named, transparent: false, container_default: true, fields: &[
        FieldDef { name: "nan", json: "nan", ron: "nan", ty: <u32 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u32 as Default>::default().to_val()) },
        FieldDef { name: "o", json: "o", ron: "o", ty: <String as Subject>::ty, skip: false, dflt: Dflt::Value(|| dflt_153_0().to_val()), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "b", json: "b", ron: "b", ty: <Option<P147> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<P147> as Default>::default().to_val()) },
        FieldDef { name: "u33", json: "u33", ron: "u33", ty: <HashMap<String, Duration> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <HashMap<String, Duration> as Default>::default().to_val()) },
        FieldDef { name: "r#enum", json: "enum", ron: "enum", ty: <f64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f64 as Default>::default().to_val()) },
        FieldDef { name: "w", json: "w", ron: "w", ty: <usize as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <usize as Default>::default().to_val()) },
        FieldDef { name: "d", json: "d", ron: "d", ty: <[P152; 4] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <[P152; 4] as Default>::default().to_val()) },
        FieldDef { name: "rename_", json: "rename_", ron: "rename_", ty: <u32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u32 as Default>::default().to_val()) },
        FieldDef { name: "t17", json: "t17", ron: "t17", ty: <i8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i8 as Default>::default().to_val()) },
        FieldDef { name: "deserialize_ron", json: "type", ron: "type", ty: <core::option::Option<f32> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <core::option::Option<f32> as Default>::default().to_val()) },
        FieldDef { name: "v", json: "int64", ron: "int64", ty: <BTreeMap<String, SystemTime> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, SystemTime> as Default>::default().to_val()) },
        FieldDef { name: "o2", json: "o2", ron: "o2", ty: <HashSet<i64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <HashSet<i64> as Default>::default().to_val()) },
        FieldDef { name: "null", json: "null", ron: "null", ty: <P137 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <P137 as Default>::default().to_val()) },
        FieldDef { name: "Option_", json: "Option_", ron: "Option_", ty: <BTreeSet<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeSet<u8> as Default>::default().to_val()) },
        FieldDef { name: "bytes", json: "bytes", ron: "bytes", ty: <u32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u32 as Default>::default().to_val()) },
        FieldDef { name: "u37", json: "u37", ron: "u37", ty: <Vec<P133> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<P133> as Default>::default().to_val()) },
        FieldDef { name: "list", json: "list", ron: "list", ty: <Vec<i64> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <Vec<i64> as Default>::default().to_val()) },
        FieldDef { name: "std_", json: "std_", ron: "std_", ty: <::std::option::Option<Box<i8>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <::std::option::Option<Box<i8>> as Default>::default().to_val()) },
        FieldDef { name: "a", json: "long_field_name_that_goes_on_and_on_and_on_and_does_not_stop_here", ron: "long_field_name_that_goes_on_and_on_and_on_and_does_not_stop_here", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) },
        FieldDef { name: "truex", json: "truex", ron: "truex", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) },
        FieldDef { name: "ok_", json: "name", ron: "name", ty: <Vec<Vec<u8>> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<Vec<u8>> as Default>::default().to_val()) },
        FieldDef { name: "NULL", json: "NULL", ron: "NULL", ty: <Option<P152> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<P152> as Default>::default().to_val()) },
        FieldDef { name: "Some", json: "Some", ron: "Some", ty: <u64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u64 as Default>::default().to_val()) },
        FieldDef { name: "r#use", json: "use", ron: "use", ty: <u64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u64 as Default>::default().to_val()) },
        FieldDef { name: "z", json: "z", ron: "z", ty: <(i8, [bool; LEN], u32,) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(i8, [bool; LEN], u32,) as Default>::default().to_val()) },
        FieldDef { name: "l57", json: "l57", ron: "l57", ty: <P152 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <P152 as Default>::default().to_val()) },
        FieldDef { name: "w42", json: "w42", ron: "w42", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) },
        FieldDef { name: "o67", json: "o67", ron: "o67", ty: <HashSet<Box<bool>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <HashSet<Box<bool>> as Default>::default().to_val()) },
        FieldDef { name: "i", json: "i", ron: "i", ty: <bool as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: bool = true; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) },
        FieldDef { name: "s89", json: "s89", ron: "s89", ty: <Duration as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Duration as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "kind", ron: "kind", ty: <Duration as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Duration as Default>::default().to_val()) },
        FieldDef { name: "strbuf", json: "strbuf", ron: "strbuf", ty: <Vec<core::option::Option<Kb<{ 1 > 2 }>>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<core::option::Option<Kb<{ 1 > 2 }>>> as Default>::default().to_val()) },
        FieldDef { name: "s", json: "s", ron: "s", ty: <P131 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <P131 as Default>::default().to_val()) },
        FieldDef { name: "o33", json: "o33", ron: "o33", ty: <u16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u16 as Default>::default().to_val()) },
        FieldDef { name: "_0x", json: "_0x", ron: "_0x", ty: <Option<u16> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<u16> as Default>::default().to_val()) },
        FieldDef { name: "n27", json: "n27", ron: "n27", ty: <u64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u64 as Default>::default().to_val()) },
        FieldDef { name: "buf", json: "buf", ron: "buf", ty: <i8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i8 as Default>::default().to_val()) },
        FieldDef { name: "Ok", json: "Ok", ron: "Ok", ty: <[bool; 3] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <[bool; 3] as Default>::default().to_val()) },
        FieldDef { name: "none_", json: "none_", ron: "none_", ty: <Odd<fn(u8) -> u8> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Odd<fn(u8) -> u8> as Default>::default().to_val()) },
        FieldDef { name: "t", json: "t", ron: "t", ty: <<u8 as Assoc>::Ty as Subject>::ty, skip: false, dflt: Dflt::Value(|| dflt_153_1().to_val()), is_opt: false, null_none: false, type_default: Some(|| <<u8 as Assoc>::Ty as Default>::default().to_val()) },
        FieldDef { name: "Vec_", json: "Vec_", ron: "Vec_", ty: <Box<i64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Box<i64> as Default>::default().to_val()) },
        FieldDef { name: "u64", json: "e", ron: "e", ty: <Option<i64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<i64> as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "unknown", ron: "unknown", ty: <Box<std::collections::BTreeSet<i16>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Box<std::collections::BTreeSet<i16>> as Default>::default().to_val()) },
        FieldDef { name: "t65", json: "camelCase", ron: "camelCase", ty: <(BTreeMap<i32, Duration>, Box<u64>, u8,) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(BTreeMap<i32, Duration>, Box<u64>, u8,) as Default>::default().to_val()) },
        FieldDef { name: "col", json: "col", ron: "col", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) },
        FieldDef { name: "de_bin", json: "de_bin", ron: "de_bin", ty: <u16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u16 as Default>::default().to_val()) },
        FieldDef { name: "b40", json: "b40", ron: "b40", ty: <std::vec::Vec<P133> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::vec::Vec<P133> as Default>::default().to_val()) },
        FieldDef { name: "none", json: "none", ron: "none", ty: <u64 as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: u64 = 1_0; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <u64 as Default>::default().to_val()) },
        FieldDef { name: "y82", json: "y82", ron: "y82", ty: <u16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u16 as Default>::default().to_val()) },
        FieldDef { name: "e74", json: "e74", ron: "e74", ty: <core::option::Option<Duration> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <core::option::Option<Duration> as Default>::default().to_val()) },
        FieldDef { name: "r83", json: "r83", ron: "r83", ty: <Vec<P148> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<P148> as Default>::default().to_val()) },
        FieldDef { name: "q99", json: "q99", ron: "q99", ty: <::std::option::Option<P137> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <::std::option::Option<P137> as Default>::default().to_val()) },
        FieldDef { name: "_s", json: "_s", ron: "_s", ty: <u32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u32 as Default>::default().to_val()) },
        FieldDef { name: "field", json: "field", ron: "field", ty: <P152 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <P152 as Default>::default().to_val()) },
        FieldDef { name: "x72", json: "Renamed", ron: "Renamed", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "w94", json: "w94", ron: "w94", ty: <Odd<fn(u8) -> u8> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Odd<fn(u8) -> u8> as Default>::default().to_val()) },
        FieldDef { name: "identbuf", json: "identbuf", ron: "identbuf", ty: <Vec<P141<u8, 0>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<P141<u8, 0>> as Default>::default().to_val()) },
        FieldDef { name: "y", json: "y", ron: "y", ty: <Option<Vec<i16>> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<i16>> as Default>::default().to_val()) },
        FieldDef { name: "error", json: "error", ron: "error", ty: <f64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f64 as Default>::default().to_val()) },
        FieldDef { name: "e6", json: "e6", ron: "e6", ty: <Vec<LinkedList<Kn<{ 9 >> 1 }>>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<LinkedList<Kn<{ 9 >> 1 }>>> as Default>::default().to_val()) },
        FieldDef { name: "result", json: "result", ron: "result", ty: <P131 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <P131 as Default>::default().to_val()) },
        FieldDef { name: "data", json: "data", ron: "data", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) },
        FieldDef { name: "f", json: "f", ron: "f", ty: <<Alias<Vec<u8>> as self::Assoc>::Ty as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <<Alias<Vec<u8>> as self::Assoc>::Ty as Default>::default().to_val()) },
        FieldDef { name: "default_value", json: "default_value", ron: "default_value", ty: <i8 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <i8 as Default>::default().to_val()) },
        FieldDef { name: "b53", json: "b53", ron: "b53", ty: <usize as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <usize as Default>::default().to_val()) },
        FieldDef { name: "x30", json: "x30", ron: "x30", ty: <Duration as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Duration as Default>::default().to_val()) },
        FieldDef { name: "e35", json: "variant_name_", ron: "variant_name_", ty: <String as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "ser_json", json: "ser_json", ron: "ser_json", ty: <f64 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f64 as Default>::default().to_val()) },
        FieldDef { name: "key", json: "key", ron: "key", ty: <Vec<P133> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<P133> as Default>::default().to_val()) },
        FieldDef { name: "r18", json: "r18", ron: "r18", ty: <Box<BTreeMap<String, Kb<{ 'a' == '}' }>>> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <Box<BTreeMap<String, Kb<{ 'a' == '}' }>>> as Default>::default().to_val()) },
        FieldDef { name: "w20", json: "w20", ron: "w20", ty: <() as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <() as Default>::default().to_val()) },
        FieldDef { name: "t34", json: "t34", ron: "t34", ty: <Kb<{ 1 > 2 }> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Kb<{ 1 > 2 }> as Default>::default().to_val()) },
        FieldDef { name: "chars", json: "chars", ron: "chars", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) },
        FieldDef { name: "r#let", json: "let", ron: "let", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) },
        FieldDef { name: "default", json: "default", ron: "default", ty: <BTreeMap<String, (u32, Kn<7>, Duration, f32)> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, (u32, Kn<7>, Duration, f32)> as Default>::default().to_val()) },
        FieldDef { name: "a_", json: "a_", ron: "a_", ty: <::std::string::String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <::std::string::String as Default>::default().to_val()) },
        FieldDef { name: "items", json: "None", ron: "None", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) },
        FieldDef { name: "NONE", json: "NONE", ron: "NONE", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "c57", json: "c57", ron: "c57", ty: <Vec<P149> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<P149> as Default>::default().to_val()) },
        FieldDef { name: "i64", json: "i64", ron: "i64", ty: <Option<P149> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<P149> as Default>::default().to_val()) },
        FieldDef { name: "r5", json: "r5", ron: "r5", ty: <u16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u16 as Default>::default().to_val()) },
        FieldDef { name: "r#fn", json: "fn", ron: "fn", ty: <core::option::Option<[i16; 2]> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <core::option::Option<[i16; 2]> as Default>::default().to_val()) },
        FieldDef { name: "s42", json: "numbuf", ron: "numbuf", ty: <f64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f64 as Default>::default().to_val()) },
        FieldDef { name: "l4", json: "l4", ron: "l4", ty: <P131 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <P131 as Default>::default().to_val()) },
        FieldDef { name: "n30", json: "n30", ron: "n30", ty: <usize as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <usize as Default>::default().to_val()) },
        FieldDef { name: "nanoserde_", json: "nanoserde_", ron: "nanoserde_", ty: <Duration as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Duration as Default>::default().to_val()) },
        FieldDef { name: "u8_", json: "u8_", ron: "u8_", ty: <Box<(Duration, i8,)> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Box<(Duration, i8,)> as Default>::default().to_val()) },
        FieldDef { name: "j65", json: "j65", ron: "j65", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "f83", json: "f83", ron: "f83", ty: <Option<Duration> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Duration> as Default>::default().to_val()) },
        FieldDef { name: "i0", json: "i0", ron: "i0", ty: <std::vec::Vec<i16> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::vec::Vec<i16> as Default>::default().to_val()) },
        FieldDef { name: "n2", json: "n2", ron: "n2", ty: <core::option::Option<i8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <core::option::Option<i8> as Default>::default().to_val()) },
        FieldDef { name: "t48", json: "snake_case_name", ron: "snake_case_name", ty: <std::option::Option<[i16; 0x3]> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <std::option::Option<[i16; 0x3]> as Default>::default().to_val()) },
        FieldDef { name: "c", json: "c", ron: "c", ty: <i32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i32 as Default>::default().to_val()) },
        FieldDef { name: "value", json: "value", ron: "value", ty: <Kn<{ 9 >> 1 }> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Kn<{ 9 >> 1 }> as Default>::default().to_val()) },
        FieldDef { name: "m94", json: "m94", ron: "m94", ty: <[(u64, ::std::string::String); 3] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <[(u64, ::std::string::String); 3] as Default>::default().to_val()) },
        FieldDef { name: "q91", json: "q91", ron: "q91", ty: <std::collections::HashMap<(u64, u64), LinkedList<u64>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::collections::HashMap<(u64, u64), LinkedList<u64>> as Default>::default().to_val()) },
        FieldDef { name: "first", json: "first", ron: "first", ty: <P152 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <P152 as Default>::default().to_val()) },
        FieldDef { name: "r36", json: "r36", ron: "r36", ty: <P131 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <P131 as Default>::default().to_val()) },
        FieldDef { name: "g3", json: "g3", ron: "g3", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) },
        FieldDef { name: "out", json: "out", ron: "out", ty: <Option<[f64; LEN]> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<[f64; LEN]> as Default>::default().to_val()) },
        FieldDef { name: "d1", json: "d1", ron: "d1", ty: <std::collections::HashMap<i8, ((), u64,)> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::collections::HashMap<i8, ((), u64,)> as Default>::default().to_val()) },
        FieldDef { name: "m13", json: "m13", ron: "m13", ty: <std::string::String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::string::String as Default>::default().to_val()) },
        FieldDef { name: "u97", json: "u97", ron: "u97", ty: <LinkedList<P141<u8, 0>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <LinkedList<P141<u8, 0>> as Default>::default().to_val()) },
        FieldDef { name: "Y", json: "Y", ron: "Y", ty: <[Kn<7>; 0x3] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <[Kn<7>; 0x3] as Default>::default().to_val()) },
        FieldDef { name: "u11", json: "u11", ron: "u11", ty: <u32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u32 as Default>::default().to_val()) },
        FieldDef { name: "r#where", json: "where", ron: "where", ty: <[Option<u16>; 0x3] as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <[Option<u16>; 0x3] as Default>::default().to_val()) },
        FieldDef { name: "first_field_was_serialized", json: "first_field_was_serialized", ron: "first_field_was_serialized", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "String_", json: "String_", ron: "String_", ty: <std::option::Option<[u8; { LEN + 1 }]> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <std::option::Option<[u8; { LEN + 1 }]> as Default>::default().to_val()) },
        FieldDef { name: "z4", json: "z4", ron: "z4", ty: <std::collections::HashMap<String, i16> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <std::collections::HashMap<String, i16> as Default>::default().to_val()) },
        FieldDef { name: "state", json: "state", ron: "state", ty: <u16 as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <u16 as Default>::default().to_val()) },
        FieldDef { name: "e49", json: "e49", ron: "e49", ty: <Vec<P134> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<P134> as Default>::default().to_val()) },
        FieldDef { name: "UPPER", json: "UPPER", ron: "UPPER", ty: <Vec<Option<String>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<Option<String>> as Default>::default().to_val()) },
        FieldDef { name: "r1", json: "r1", ron: "r1", ty: <(i32, i16,) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(i32, i16,) as Default>::default().to_val()) },
        FieldDef { name: "r29", json: "r29", ron: "r29", ty: <(<u8 as Assoc>::Ty, HashSet<i64>, i8,) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(<u8 as Assoc>::Ty, HashSet<i64>, i8,) as Default>::default().to_val()) },
        FieldDef { name: "z69", json: "z69", ron: "z69", ty: <(P131, [u8; 1]) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(P131, [u8; 1]) as Default>::default().to_val()) },
        FieldDef { name: "q54", json: "q54", ron: "q54", ty: <Option<P137> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<P137> as Default>::default().to_val()) },
        FieldDef { name: "nul", json: "nul", ron: "nul", ty: <(i32, String,) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(i32, String,) as Default>::default().to_val()) },
        FieldDef { name: "u65", json: "u65", ron: "u65", ty: <P137 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <P137 as Default>::default().to_val()) },
        FieldDef { name: "last", json: "last", ron: "last", ty: <u64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u64 as Default>::default().to_val()) },
        FieldDef { name: "n19", json: "X", ron: "X", ty: <BTreeSet<(i8, u16)> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeSet<(i8, u16)> as Default>::default().to_val()) },
        FieldDef { name: "_a", json: "_a", ron: "_a", ty: <(Duration, LinkedList<Duration>, i32) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(Duration, LinkedList<Duration>, i32) as Default>::default().to_val()) },
        FieldDef { name: "y95", json: "y95", ron: "y95", ty: <core::option::Option<f32> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <core::option::Option<f32> as Default>::default().to_val()) },
        FieldDef { name: "t73", json: "true_", ron: "true_", ty: <Box<std::collections::BTreeSet<usize>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Box<std::collections::BTreeSet<usize>> as Default>::default().to_val()) },
        FieldDef { name: "r16", json: "r16", ron: "r16", ty: <Kc<','> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Kc<','> as Default>::default().to_val()) },
        FieldDef { name: "n71", json: "n71", ron: "n71", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) },
        FieldDef { name: "i34", json: "proxy", ron: "proxy", ty: <u64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u64 as Default>::default().to_val()) },
        FieldDef { name: "i12", json: "i12", ron: "i12", ty: <Kb<true> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Kb<true> as Default>::default().to_val()) },
        FieldDef { name: "o54", json: "o54", ron: "o54", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: bool = true; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) },
        FieldDef { name: "some", json: "some", ron: "some", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "v60", json: "v60", ron: "v60", ty: <P152 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <P152 as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); P153Big { nan: Subject::from_val(&x[0]), o: Subject::from_val(&x[1]), b: Subject::from_val(&x[2]), u33: Subject::from_val(&x[3]), r#enum: Subject::from_val(&x[4]), w: Subject::from_val(&x[5]), d: Subject::from_val(&x[6]), rename_: Subject::from_val(&x[7]), t17: Subject::from_val(&x[8]), deserialize_ron: Subject::from_val(&x[9]), v: Subject::from_val(&x[10]), o2: Subject::from_val(&x[11]), null: Subject::from_val(&x[12]), Option_: Subject::from_val(&x[13]), bytes: Subject::from_val(&x[14]), u37: Subject::from_val(&x[15]), list: Subject::from_val(&x[16]), std_: Subject::from_val(&x[17]), a: Subject::from_val(&x[18]), truex: Subject::from_val(&x[19]), ok_: Subject::from_val(&x[20]), NULL: Subject::from_val(&x[21]), Some: Subject::from_val(&x[22]), r#use: Subject::from_val(&x[23]), z: Subject::from_val(&x[24]), l57: Subject::from_val(&x[25]), w42: Subject::from_val(&x[26]), o67: Subject::from_val(&x[27]), i: Subject::from_val(&x[28]), s89: Subject::from_val(&x[29]), f8: Subject::from_val(&x[30]), strbuf: Subject::from_val(&x[31]), s: Subject::from_val(&x[32]), o33: Subject::from_val(&x[33]), _0x: Subject::from_val(&x[34]), n27: Subject::from_val(&x[35]), buf: Subject::from_val(&x[36]), Ok: Subject::from_val(&x[37]), none_: Subject::from_val(&x[38]), t: Subject::from_val(&x[39]), Vec_: Subject::from_val(&x[40]), u64: Subject::from_val(&x[41]), f1: Subject::from_val(&x[42]), t65: Subject::from_val(&x[43]), col: Subject::from_val(&x[44]), de_bin: Subject::from_val(&x[45]), b40: Subject::from_val(&x[46]), none: Subject::from_val(&x[47]), y82: Subject::from_val(&x[48]), e74: Subject::from_val(&x[49]), r83: Subject::from_val(&x[50]), q99: Subject::from_val(&x[51]), _s: Subject::from_val(&x[52]), field: Subject::from_val(&x[53]), x72: Subject::from_val(&x[54]), w94: Subject::from_val(&x[55]), identbuf: Subject::from_val(&x[56]), y: Subject::from_val(&x[57]), error: Subject::from_val(&x[58]), e6: Subject::from_val(&x[59]), result: Subject::from_val(&x[60]), data: Subject::from_val(&x[61]), f: Subject::from_val(&x[62]), default_value: Subject::from_val(&x[63]), b53: Subject::from_val(&x[64]), x30: Subject::from_val(&x[65]), e35: Subject::from_val(&x[66]), ser_json: Subject::from_val(&x[67]), key: Subject::from_val(&x[68]), r18: Subject::from_val(&x[69]), w20: Subject::from_val(&x[70]), t34: Subject::from_val(&x[71]), chars: Subject::from_val(&x[72]), r#let: Subject::from_val(&x[73]), default: Subject::from_val(&x[74]), a_: Subject::from_val(&x[75]), items: Subject::from_val(&x[76]), NONE: Subject::from_val(&x[77]), c57: Subject::from_val(&x[78]), i64: Subject::from_val(&x[79]), r5: Subject::from_val(&x[80]), r#fn: Subject::from_val(&x[81]), s42: Subject::from_val(&x[82]), l4: Subject::from_val(&x[83]), n30: Subject::from_val(&x[84]), nanoserde_: Subject::from_val(&x[85]), u8_: Subject::from_val(&x[86]), j65: Subject::from_val(&x[87]), f83: Subject::from_val(&x[88]), i0: Subject::from_val(&x[89]), n2: Subject::from_val(&x[90]), t48: Subject::from_val(&x[91]), c: Subject::from_val(&x[92]), value: Subject::from_val(&x[93]), m94: Subject::from_val(&x[94]), q91: Subject::from_val(&x[95]), first: Subject::from_val(&x[96]), r36: Subject::from_val(&x[97]), g3: Subject::from_val(&x[98]), out: Subject::from_val(&x[99]), d1: Subject::from_val(&x[100]), m13: Subject::from_val(&x[101]), u97: Subject::from_val(&x[102]), Y: Subject::from_val(&x[103]), u11: Subject::from_val(&x[104]), r#where: Subject::from_val(&x[105]), first_field_was_serialized: Subject::from_val(&x[106]), String_: Subject::from_val(&x[107]), z4: Subject::from_val(&x[108]), state: Subject::from_val(&x[109]), e49: Subject::from_val(&x[110]), UPPER: Subject::from_val(&x[111]), r1: Subject::from_val(&x[112]), r29: Subject::from_val(&x[113]), z69: Subject::from_val(&x[114]), q54: Subject::from_val(&x[115]), nul: Subject::from_val(&x[116]), u65: Subject::from_val(&x[117]), last: Subject::from_val(&x[118]), n19: Subject::from_val(&x[119]), _a: Subject::from_val(&x[120]), y95: Subject::from_val(&x[121]), t73: Subject::from_val(&x[122]), r16: Subject::from_val(&x[123]), n71: Subject::from_val(&x[124]), i34: Subject::from_val(&x[125]), i12: Subject::from_val(&x[126]), o54: Subject::from_val(&x[127]), some: Subject::from_val(&x[128]), v60: Subject::from_val(&x[129]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.nan.to_val(), self.o.to_val(), self.b.to_val(), self.u33.to_val(), self.r#enum.to_val(), self.w.to_val(), self.d.to_val(), self.rename_.to_val(), self.t17.to_val(), self.deserialize_ron.to_val(), self.v.to_val(), self.o2.to_val(), self.null.to_val(), self.Option_.to_val(), self.bytes.to_val(), self.u37.to_val(), self.list.to_val(), self.std_.to_val(), self.a.to_val(), self.truex.to_val(), self.ok_.to_val(), self.NULL.to_val(), self.Some.to_val(), self.r#use.to_val(), self.z.to_val(), self.l57.to_val(), self.w42.to_val(), self.o67.to_val(), self.i.to_val(), self.s89.to_val(), self.f8.to_val(), self.strbuf.to_val(), self.s.to_val(), self.o33.to_val(), self._0x.to_val(), self.n27.to_val(), self.buf.to_val(), self.Ok.to_val(), self.none_.to_val(), self.t.to_val(), self.Vec_.to_val(), self.u64.to_val(), self.f1.to_val(), self.t65.to_val(), self.col.to_val(), self.de_bin.to_val(), self.b40.to_val(), self.none.to_val(), self.y82.to_val(), self.e74.to_val(), self.r83.to_val(), self.q99.to_val(), self._s.to_val(), self.field.to_val(), self.x72.to_val(), self.w94.to_val(), self.identbuf.to_val(), self.y.to_val(), self.error.to_val(), self.e6.to_val(), self.result.to_val(), self.data.to_val(), self.f.to_val(), self.default_value.to_val(), self.b53.to_val(), self.x30.to_val(), self.e35.to_val(), self.ser_json.to_val(), self.key.to_val(), self.r18.to_val(), self.w20.to_val(), self.t34.to_val(), self.chars.to_val(), self.r#let.to_val(), self.default.to_val(), self.a_.to_val(), self.items.to_val(), self.NONE.to_val(), self.c57.to_val(), self.i64.to_val(), self.r5.to_val(), self.r#fn.to_val(), self.s42.to_val(), self.l4.to_val(), self.n30.to_val(), self.nanoserde_.to_val(), self.u8_.to_val(), self.j65.to_val(), self.f83.to_val(), self.i0.to_val(), self.n2.to_val(), self.t48.to_val(), self.c.to_val(), self.value.to_val(), self.m94.to_val(), self.q91.to_val(), self.first.to_val(), self.r36.to_val(), self.g3.to_val(), self.out.to_val(), self.d1.to_val(), self.m13.to_val(), self.u97.to_val(), self.Y.to_val(), self.u11.to_val(), self.r#where.to_val(), self.first_field_was_serialized.to_val(), self.String_.to_val(), self.z4.to_val(), self.state.to_val(), self.e49.to_val(), self.UPPER.to_val(), self.r1.to_val(), self.r29.to_val(), self.z69.to_val(), self.q54.to_val(), self.nul.to_val(), self.u65.to_val(), self.last.to_val(), self.n19.to_val(), self._a.to_val(), self.y95.to_val(), self.t73.to_val(), self.r16.to_val(), self.n71.to_val(), self.i34.to_val(), self.i12.to_val(), self.o54.to_val(), self.some.to_val(), self.v60.to_val()]) }
}
fn dflt_153_0() -> String { <String as Subject>::from_val(&vcore::gen::sample::<String>(501394320)) }
fn dflt_153_1() -> <u8 as Assoc>::Ty { <<u8 as Assoc>::Ty as Subject>::from_val(&vcore::gen::sample::<<u8 as Assoc>::Ty>(825026754)) }

pub fn reg() -> Vec<Entry> {
    vec![
        entry!(P1; bin json ron),
        entry!(P2; bin ron),
        entry!(P2View; bin ron),
        entry!(P3; bin json ron),
        entry!(P4; bin json ron),
        entry!(P4View; bin json ron),
        entry!(P5; bin json),
        entry!(P6; json),
        entry!(P7; bin json),
        entry!(P8; bin json ron),
        entry!(P9; json),
        entry!(P10; bin json ron),
        entry!(P11; bin),
        entry!(P12; bin json ron),
        entry!(P13; json),
        entry!(P14; json),
        entry!(P15; bin),
        entry!(P16; bin json ron),
        entry!(P17; bin json ron),
        entry!(P18; bin json ron),
        entry!(P19; ron),
        entry!(P20; bin json ron),
        entry!(P21; bin json ron),
        entry!(P22; json),
        entry!(P23; bin json ron),
        entry!(P24; bin json ron),
        entry!(P25; bin json ron),
        entry!(P26<String, 1, true>; bin json ron),
        entry!(P26<Vec<u16>, 0, false>; bin json ron),
        entry!(P27; bin json ron),
        entry!(P28<Vec<u16>, 3, true>; bin json ron),
        entry!(P28<(u8, String), 1, { 1 < 2 }>; bin json ron),
        entry!(P29; bin json ron),
        entry!(P30; bin),
        entry!(P31; bin json ron),
        entry!(P32<bool>; bin json ron),
        entry!(P32<u8>; bin json ron),
        entry!(P33; bin json ron),
        entry!(P34; bin json ron),
        entry!(P34View; bin json ron),
        entry!(P35; json),
        entry!(P36; bin json ron),
        entry!(P37; bin json ron),
        entry!(P38; bin json ron),
        entry!(P39; bin json ron),
        entry!(P40<bool, bool, 3>; bin),
        entry!(P40<u8, (u8, String), 1>; bin),
        entry!(P41; bin json ron),
        entry!(P42; bin json ron),
        entry!(P43; bin json ron),
        entry!(P44; bin),
        entry!(P45; bin json ron),
        entry!(P46; bin json),
        entry!(P47; ron),
        entry!(P48; bin json ron),
        entry!(P49; json),
        entry!(P50<Vec<u16>, 1>; json),
        entry!(P50<Vec<String>, 0>; json),
        entry!(P51Big; bin json ron),
        entry!(P52; bin json ron),
        entry!(P53<Vec<u16>, 'x'>; bin json ron),
        entry!(P53<bool, 'y'>; bin json ron),
        entry!(P54; bin),
        entry!(P55; json),
        entry!(P56; bin json),
        entry!(P57; bin json ron),
        entry!(P58; bin json ron),
        entry!(P59; bin ron),
        entry!(P59View; bin ron),
        entry!(P60; bin json ron),
        entry!(P61; json ron),
        entry!(P62; bin json ron),
        entry!(P62View; bin json ron),
        entry!(P63; bin json ron),
        entry!(P63View; bin json ron),
        entry!(P64; bin json ron),
        entry!(P65; bin json ron),
        entry!(P66<bool, 3>; bin json ron),
        entry!(P66<bool, 0>; bin json ron),
        entry!(P67; bin json ron),
        entry!(P68; bin json ron),
        entry!(P68View; bin json ron),
        entry!(P69; bin json ron),
        entry!(P70; json ron),
        entry!(P71; bin ron),
        entry!(P72; bin json ron),
        entry!(P73<u8, Vec<String>>; bin json ron),
        entry!(P73<bool, Vec<u16>>; bin json ron),
        entry!(P74; bin ron),
        entry!(P75; json),
        entry!(P76<bool>; bin json ron),
        entry!(P76<String>; bin json ron),
        entry!(P77<i32, bool, 0>; json),
        entry!(P77<bool, (u8, String), 3>; json),
        entry!(P78; bin json ron),
        entry!(P79; bin json ron),
        entry!(P80; bin json ron),
        entry!(P80View; bin json ron),
        entry!(P81; json),
        entry!(P82; bin json),
        entry!(P83; ron),
        entry!(P84<(u8, String), bool>; json),
        entry!(P84<u8, Vec<u16>>; json),
        entry!(P85<bool, 3>; json),
        entry!(P85<Vec<String>, 0>; json),
        entry!(P86; bin ron),
        entry!(P86View; bin ron),
        entry!(P87<Vec<u16>, 0>; bin json ron),
        entry!(P87<String, 1>; bin json ron),
        entry!(P88; json),
        entry!(P89<i32, i32>; json ron),
        entry!(P89<i32, bool>; json ron),
        entry!(P90; bin json ron),
        entry!(P91<u8, i32>; bin json ron),
        entry!(P91<u8, (u8, String)>; bin json ron),
        entry!(P92; bin json ron),
        entry!(P93; bin json ron),
        entry!(P94; bin json ron),
        entry!(P95; ron),
        entry!(P95View; ron),
        entry!(P96<String, 1>; bin json ron),
        entry!(P96<(u8, String), 3>; bin json ron),
        entry!(P97; bin ron),
        entry!(P97View; bin ron),
        entry!(P98; bin),
        entry!(P99; bin),
        entry!(P100; bin json ron),
        entry!(P101; bin json ron),
        entry!(P102Big; bin json ron),
        entry!(P103; bin json ron),
        entry!(P104; json),
        entry!(P105<Vec<u16>, { 2 - 3 }>; bin json ron),
        entry!(P105<bool, -1>; bin json ron),
        entry!(P106; bin json ron),
        entry!(P107; bin json ron),
        entry!(P108; bin json ron),
        entry!(P109; bin json ron),
        entry!(P110; bin json ron),
        entry!(P111; bin json ron),
        entry!(P112; json),
        entry!(P112View; json),
        entry!(P113; bin json ron),
        entry!(P114; bin json ron),
        entry!(P115; bin json ron),
        entry!(P116; json ron),
        entry!(P116View; json ron),
        entry!(P117<Vec<String>, bool>; bin ron),
        entry!(P117<(u8, String), Vec<u16>>; bin ron),
        entry!(P118; json),
        entry!(P118View; json),
        entry!(P119<bool>; bin json ron),
        entry!(P119<u8>; bin json ron),
        entry!(P120<bool, Vec<String>, 1>; bin),
        entry!(P120<String, Vec<u16>, 3>; bin),
        entry!(P121; bin json ron),
        entry!(P122; bin),
        entry!(P123; bin json ron),
        entry!(P124<bool, { u8::MAX }>; bin),
        entry!(P124<String, { u8::MAX }>; bin),
        entry!(P125; bin json ron),
        entry!(P126; bin json ron),
        entry!(P127; json),
        entry!(P128; bin json ron),
        entry!(P129; json),
        entry!(P129View; json),
        entry!(P130<bool, 0>; json ron),
        entry!(P130<bool, 0>; json ron),
        entry!(P131; bin json ron),
        entry!(P131View; bin json ron),
        entry!(P132<i32, 0, false>; json ron),
        entry!(P132<u8, 3, false>; json ron),
        entry!(P133; bin json ron),
        entry!(P133View; bin json ron),
        entry!(P134; bin json ron),
        entry!(P135; bin),
        entry!(P136; bin json ron),
        entry!(P137; bin json ron),
        entry!(P138; json),
        entry!(P139; bin json ron),
        entry!(P140; json),
        entry!(P141<i32, 0>; bin json ron),
        entry!(P141<u8, 0>; bin json ron),
        entry!(P142; bin),
        entry!(P143; ron),
        entry!(P144; bin json ron),
        entry!(P145; bin json ron),
        entry!(P146; bin json),
        entry!(P147; bin json ron),
        entry!(P148; bin json ron),
        entry!(P149; bin json ron),
        entry!(P150; bin json ron),
        entry!(P151<u8>; bin ron),
        entry!(P151<u8>; bin ron),
        entry!(P152; bin json ron),
        entry!(P153Big; bin json ron),
    ]
}
